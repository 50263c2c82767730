"""C03: bank selected in the player."""
from specs.common import *
from specs import movie


def body(chk):
    par(chk, movie.tasks("C03", streams=True, encodes=True))
    movie.assumptions(chk)


def run(tier):
    return execute("C03", tier, body, replay("movie_fuzz.py", "C03"))
