"""C02: the bytes emitted for a command are what the assembled player executes.

Emitter side: for each of the 1024 audio/video commands and for ACK, terminate and the header, the emitted bytes are
the label address of the freshly assembled player and the operands, for all operand values.  Player side: the contract
of each routine (C17, C19, C20) in terms of the stream bytes it reads.  Both sides name the same positions."""
from specs.common import *
from specs import movie
from core.report import Check
from m6502 import contracts
from pyvc.instrument import RList

PLAYER = ("ends", "stream-reads", "jump-target", "store-address", "store-value", "four-screen-stores",
          "one-entry-point", "one-soft-switch", "soft-switch-address", "stream-read-positions", "next-command",
          "header-bytes-then-command", "first-command", "hgr:", "dhgr:", "reaches", ":paths", "engine", "op_terminate:")


def program():
    return env.transcoder(overrides={"builtins": {"open": env.repo_open}})


def h_emit(prog, player, part, of):
    def f():
        e = V.ENG
        ops = prog.opcodes
        machine = prog.load("machine").Machine

        def emitted(name, op):
            return noexc(e, name, lambda: list(machine().emit(op)))

        def check(name, op, label, want):
            got = emitted(name, op)
            vals = player.symbols.get(label, ())
            e.prove("%s: the player has one routine of that name" % name, len(vals) == 1)
            if len(vals) != 1:
                return
            a = next(iter(vals))
            e.prove("%s: two address bytes and %d operands" % (name, len(want)), len(got) == 2 + len(want))
            if len(got) != 2 + len(want):
                return
            e.prove("%s: address of the player's routine, high byte first" % name,
                    V.land(V.eq(got[0], a >> 8), V.eq(got[1], a & 255)))
            for k, w in enumerate(want):
                e.prove("%s: operand %d" % (name, k), V.eq(N.raw(got[2 + k]), w))
        if part == 0:
            aux = e.fresh_bool("aux")
            got_ack = ops.Ack(aux_active=aux)
            check("ack", got_ack, "op_ack", [V.ite(aux, 0x55, 0x54), 0xff])
            check("terminate", ops.Terminate(), "op_terminate", [])
            for mode, byte in ((prog.modes.HGR, 0), (prog.modes.DHGR, 1)):
                got = emitted("header", ops.Header(mode=mode))
                e.prove("header: seven bytes", len(got) == 7)
                if len(got) == 7:
                    e.prove("header: last byte is the video mode as the player reads it", V.eq(got[6], byte))
                    e.prove("header: bytes", V.land(*[V.land(0 <= x, x <= 255) for x in got]))
        for i, (t, p) in enumerate((t, p) for t in contracts.TICKS for p in contracts.PAGES):
            if i % of != part:
                continue
            c = e.fresh_int("content", 0, 255)
            o = [e.fresh_int("o%d" % k, 0, 255) for k in range(4)]
            name = "tick_%d_page_%d" % (t, p)
            op = noexc(e, name, lambda: ops.TICK_OPCODES[(t, p)](c, RList(o)))
            check(name, op, "op_" + name, [c] + o)
        e.cover("emitted")
    return f


def emit_task(chk, part, of):
    player = contracts.load()
    prog = program()
    prog.opcodes = prog.load("opcodes")
    prog.modes = prog.load("video_mode").VideoMode
    prog.engine(chk, "emit: ").run(h_emit(prog, player, part, of))
    for f in ("opcodes.Opcode.emit_command", "opcodes.BaseTick.emit_data", "opcodes.Ack.emit_data",
              "opcodes.Header.emit_data", "opcodes.Header.emit_command", "opcodes.Opcode.emit_data",
              "machine.Machine.emit", "opcodes._fill_opcode_addresses", "opcodes._parse_symbol_table",
              "symbol_table.SymbolTable.parse", "opcodes._make_tick_opcodes", "opcodes.BaseTick.__init__",
              "opcodes.Ack.__init__", "opcodes.Header.__init__"):
        chk.under_contract(f)


def body(chk):
    player = contracts.load()
    sub = Check("C02", chk.tier)
    hv = contracts.cells()
    contracts.all_ticks(sub, "sem")
    for block, ptr in contracts.ACK_PTRS.items():
        contracts.check_ack(sub, player, block, ptr, hv)
    contracts.check_startup(sub, player, hv)
    contracts.check_terminate(sub, player, hv)
    rec = sub.export()
    rec["obligations"] = [dict(o, name="player: " + o["name"]) for o in rec["obligations"]
                          if any(t in o["name"] for t in PLAYER)]
    chk.merge(rec)
    of = 8
    par(chk, [("emit%d" % k, lambda c, k=k: emit_task(c, k, of)) for k in range(of)] +
        movie.tasks("C02", streams=True, encodes=False))
    movie.assumptions(chk)
    chk.assume("operand bytes are integers 0..255 (C05); Movie.emit_stream writes exactly the bytes of Machine.emit "
               "(obligations 'bytes:')")


def run(tier):
    return execute("C02", tier, body, replay("player_py65.py", "C02"))
