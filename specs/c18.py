"""C18: timing contract of the 1024 audio/video commands of the player."""
from core.report import execute, run_replay
from m6502 import contracts


def body(chk):
    contracts.all_ticks(chk, "time")
    chk.assume("X = 0 on entry: established by C20, preserved by C17 and C19")


def run(tier):
    return execute("C18", tier, body, lambda chk, f: run_replay("player_py65.py", ["C18"]))
