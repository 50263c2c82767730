"""C05: Every store hits a visible byte of the hi-res screen with a legal value."""
from specs.common import *
from specs import encoder


def run(tier):
    return execute("C05", tier, encoder.body("C05"), replay("video_fuzz.py", "C05"))
