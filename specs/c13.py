"""C13: audio/video multiplexing."""
from specs.common import *
from specs import movie


def body(chk):
    par(chk, movie.tasks("C13", streams=False, encodes=True))
    movie.assumptions(chk)


def run(tier):
    return execute("C13", tier, body, replay("movie_fuzz.py", "C13"))
