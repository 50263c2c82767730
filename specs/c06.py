"""C06: When the encoder runs out of work no visible difference is left behind."""
from specs.common import *
from specs import encoder


def run(tier):
    return execute("C06", tier, encoder.body("C06"), replay("video_fuzz.py", "C06"))
