"""C19: contract of the player's buffer management (op_ack, checkrecv, recv, op_nop)."""
from core.report import execute, run_replay
from m6502 import contracts
from m6502.cpu import Unsupported


def body(chk):
    player = contracts.load()
    hv = contracts.cells()
    for block, ptr in contracts.ACK_PTRS.items():
        try:
            contracts.check_ack(chk, player, block, ptr, hv)
        except Unsupported as e:
            chk.undecided("op_ack@block%d:engine" % block, e)
    contracts.common(chk)
    chk.assume("the ACK command occupies the last four bytes of a 2048-byte block (C01), so the four positions in "
               "the 8 KB ring are all cases; X = 0 on entry (C17, C20)")
    chk.assume("the soft-switch operand is not the speaker ($30), the keyboard or a register of the network card "
               "($90-$9F); the transcoder emits only $54 and $55 (C03)")
    chk.assume("low byte of the socket read pointer register is unchanged when not written")


def run(tier):
    return execute("C19", tier, body, lambda chk, f: run_replay("player_py65.py", ["C19"]))
