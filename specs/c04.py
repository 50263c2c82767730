"""C04: The encoder’s model of the screen equals the player’s screen memory."""
from specs.common import *
from specs import encoder


def run(tier):
    return execute("C04", tier, encoder.body("C04"), replay("video_fuzz.py", "C04"))
