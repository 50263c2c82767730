"""C01: block structure of the byte stream."""
from specs.common import *
from specs import movie


def body(chk):
    par(chk, movie.tasks("C01", streams=True, encodes=False))
    movie.assumptions(chk)


def run(tier):
    return execute("C01", tier, body, replay("movie_fuzz.py", "C01"))
