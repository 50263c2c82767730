"""C28: Extra stores in a command bring the picture strictly closer to the target."""
from specs.common import *
from specs import encoder


def run(tier):
    return execute("C28", tier, encoder.body("C28"), replay("video_fuzz.py", "C28"))
