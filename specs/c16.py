"""C16: every command is bound to its own player symbol, or loading fails."""
from specs.common import *
from specs import symbols


def body(chk):
    par(chk, symbols.tasks(chk.tier))
    python_trust(chk, numpy=False)
    for f in ("symbol_table.SymbolTable.__init__", "symbol_table.SymbolTable.parse", "opcodes._parse_symbol_table",
              "opcodes._fill_opcode_addresses", "opcodes._make_tick_opcodes", "opcodes._op_cmds"):
        chk.under_contract(f)
    chk.trust("template strings (pyvc/tstr.py) and containers with unknown members (pyvc/opencol.py)")
    chk.assume("the debug file is one cc65 writes: lines of the known keywords; symbol lines with the fields id, name, "
               "addrsize, optional size, scope or parent, def, optional ref, val (hexadecimal), optional seg, type, "
               "optional exp; a player symbol op_... is defined at most once; other files are rejected or accepted freely")
    chk.assume("addresses of commands are not 0")


def run(tier):
    return execute("C16", tier, body, replay("symbols_fuzz.py", "C16"))
