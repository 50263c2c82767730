"""Summaries of all player opcodes, computed from the assembled code."""
import re
import z3
from .player import PlayerMachine, fresh_state, TICK, WDATA
from .cpu import isc, Unsupported

TICK_RE = re.compile(r"^op_tick_(\d+)_page_(\d+)$")


def tick_entries(player):
    """(tick, page) -> entry address for every audio/video command."""
    out = {}
    for name, vals in player.symbols.items():
        m = TICK_RE.match(name)
        if m:
            out[(int(m.group(1)), int(m.group(2)))] = vals
    return out


def mutable_cells(player, entries):
    """All code/data cells any decode-loop entry point may write (least fixpoint over havoc of them).

    Returns (cells, per-entry final paths are recomputed by the caller with these cells havoced)."""
    cells = set()
    for _ in range(4):
        new = set(cells)
        m = PlayerMachine(player.image)
        for pc, ptr, x0 in entries:
            st = fresh_state(player, m, pc, cells, ptr=ptr)
            if x0 is not None:
                st.x = x0
            for p in m.run(st):
                for (addr, lo, hi, val, at) in p.writes:
                    if isc(addr) and addr in player.image:
                        new.add(addr)
        if new == cells:
            return cells
        cells = new
    raise Unsupported("mutable cells do not stabilise")
