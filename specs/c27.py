"""C27: command-line options and the output file."""
from specs.common import *
from specs import cli


def body(chk):
    par(chk, [cli.task("C27")])
    python_trust(chk)
    for f in cli.CONTRACTS:
        chk.under_contract(f)
    chk.trust("template strings (pyvc/tstr.py): string operations on names of unknown parts, os.path.splitext by contract")
    chk.assume("argparse converts and stores option values as its documentation says (executed for sample command lines)")
    chk.assume("video.Video's use of its constructor arguments: properties C04-C06, C13; the encoder's stream enters as an "
               "arbitrary byte sequence")
    chk.assume("file writes transmit the bytes given; float rounding of MB * 1048576 (exact below 2^33 MB) is exact")


def run(tier):
    return execute("C27", tier, body, replay("main_fuzz.py", "C27"))
