"""C20: contract of the player's start-up."""
from core.report import execute, run_replay
from m6502 import contracts


def body(chk):
    player = contracts.load()
    hv = contracts.cells()
    contracts.check_startup(chk, player, hv)
    contracts.common(chk)


def run(tier):
    return execute("C20", tier, body, lambda chk, f: run_replay("player_py65.py", ["C20"]))
