"""C25: the frame source."""
from specs.common import *
from specs import frames


def body(chk):
    par(chk, [frames.task()])
    python_trust(chk)
    for f in frames.CONTRACTS:
        chk.under_contract(f)
    chk.trust("template strings (pyvc/tstr.py): string operations on names of unknown parts")
    chk.assume("queue.Queue is a FIFO; the worker and the consumer share nothing but the queue and constants, so running the "
               "worker first is equivalent to every interleaving (deterministic one-producer one-consumer network)")
    chk.assume("bmp2dhr writes <stem>C.BIN (hgr), <stem>.BIN and <stem>.AUX (dhgr, A) for <stem>.bmp and succeeds; nobody else "
               "writes to the cache directory; earlier runs were runs of this code")
    chk.assume("an input file is identified by its name; FFmpegReader.nextFrame yields the frames of the file in order")
    chk.assume("FlatMemoryMap.to_memory_map: C15")


def run(tier):
    return execute("C25", tier, body, replay("frames_fuzz.py", "C25"))
