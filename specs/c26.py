"""C26: output size limit."""
from specs.common import *
from specs import cli, movie


def body(chk):
    par(chk, movie.tasks("C26", streams=True, encodes=False) + [cli.task("C26")])
    movie.assumptions(chk)
    for f in cli.CONTRACTS[:2]:
        chk.under_contract(f)
    chk.assume("float rounding of MB * 1048576 (a multiplication by a power of two) is exact")


def run(tier):
    first, second = replay("movie_fuzz.py", "C26"), replay("main_fuzz.py", "C26")
    return execute("C26", tier, body, lambda *a, **kw: first(*a, **kw) or second(*a, **kw))
