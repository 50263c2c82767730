"""C17: functional contract of the 1024 audio/video commands of the player."""
from core.report import execute, run_replay
from m6502 import contracts


def body(chk):
    contracts.all_ticks(chk, "sem")
    chk.assume("X = 0 on entry: established by C20 (start-up), preserved by C17 (each command) and C19 (buffer management)")


def run(tier):
    return execute("C17", tier, body, lambda chk, f: run_replay("player_py65.py", ["C17"]))
