"""Regenerates MANIFEST.json from the table of claimed properties below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASM = ("contract-based deductive verification: VC generation by symbolic execution of the 6502 code assembled from "
       "/repo/player on every run, obligations discharged by z3")
PY = ("contract-based deductive verification: VC generation (pre/postconditions, loop invariants) by symbolic "
      "execution of the Python source extracted from /repo on every run, obligations discharged by z3/cvc5")
CLAIMED = {
    "C16": (PY, "All 1028 commands, any number and order of lines of any cc65 keyword, any other symbols, the command's own "
                "symbol present or missing. Symbol lines in three forms of fields (every optional field present in one and "
                "missing in another). Import of the module evaluated for four files."),
    "C17": (ASM, "All 1024 commands, all stream contents, all register contents with X=0. Trusts the 6502 semantics "
                 "(cross-checked against py65 on every run), ca65/ld65 and z3."),
    "C18": (ASM, "All 1024 commands, all stream contents. Cycle counts per the NMOS 6502 data sheet (cross-checked "
                 "against py65)."),
    "C19": (ASM, "All stream contents, all four block positions in the 8 KB ring, any number of polls and key waits "
                 "(loop cut). Trusts the W5100 register model; operand assumed to be a display soft switch."),
    "C20": (ASM, "All header bytes, all adapter status sequences (loops cut by invariant; retry loop fully unrolled). "
                 "Assumes contracts of the ROM entries HGR0/HGR/COUT/ProDOS and the W5100 register model."),
    "C01": (PY, "Emitter: both modes, with and without a limit, any command sequence (loops cut by invariants). "
                "Movie.encode enters through the contract proved for C13."),
    "C02": (PY, "All 1028 commands, every operand value, any header content: emitted bytes against the symbols and the "
                "operand use of the assembled player (contracts proved for C17-C20)."),
    "C21": (PY, "Any file content and length, any sequence of connections and disconnections; socketserver executed from "
                "the standard library's source over assumed contracts of sockets and files."),
    "C22": (PY, "Any dispatch table, switch addresses, modes, values; the Apple //e table for all 256 addresses of the "
                "I/O page and any switch settings (inductive over histories). py65.memory executed from source."),
    "C23": (PY, "Any addresses and values; any number of regions of which up to 2 (thorough: 3) contain the accessed "
                "address; py65.memory executed from source."),
    "C24": (PY, "Any pointer, register values and adapter memory, inductive over histories."),
    "C03": (PY, "Any command sequence, any number of blocks; the bank of every change is the one selected in the "
                "player when the change is executed."),
    "C13": (PY, "Any audio and frame lengths, any sample and frame rates with sample rate > frame rate, any n, any "
                "bank changes. Rates are mathematical reals."),
    "C14": (PY, "Any number and size of buffers, any samples, any factor; mono and stereo. librosa, audioread and "
                "numpy.percentile enter through assumed contracts; samples are mathematical reals."),
    "C26": (PY, "Any limit, any command sequence; both modes; any --max_output_mb value."),
    "C25": (PY, "Any number of frames, any state of the cache directory, any file name; worker and consumer verified one "
                "after the other over a FIFO queue contract; bmp2dhr enters through an assumed contract."),
    "C27": (PY, "Any option values and file names (string contracts of splitext and friends); the option parser "
                "itself is executed on sample command lines."),
    "C04": (PY, "Both modes and banks, any encoder state and target, any number of commands; Bitmap.apply and the "
                "distance functions enter through the contracts proved for C07 and C09."),
    "C05": (PY, "Both modes and banks, any encoder state and target, any number of commands."),
    "C06": (PY, "Both modes and banks, any encoder state, target and table; priorities below 2^30 at frame start."),
    "C28": (PY, "Both modes and banks, any encoder state, target and table; priorities below 2^30 at frame start."),
    "C07": (PY, "Both modes, all screens, all stores; inductive over histories. numpy contracts trusted."),
    "C08": (PY, "Both modes, all memory contents and byte positions; hardware dot model written independently."),
    "C09": (PY, "Both modes, arbitrary pictures and arbitrary symmetric distance tables (contract proved by C10)."),
    "C10": (PY, "All pairs of windows, byte positions, palettes and modes; generator loops by invariant; Damerau-Levenshtein "
                "and CIE2000 enter through assumed contracts; DHGR colour numbering is a known finding."),
    "C11": (PY, "Any length, any dot string, any phase; rol/ror for any rotation count (inferred loop invariants)."),
    "C12": (PY, "Row address formula for all rows; constant tables evaluated completely."),
    "C15": (PY, "All images, addresses, screen pages; one- and two-dimensional shapes of any size."),
}
PENDING = "machinery under construction"
NA = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in CLAIMED:
            tech, note = CLAIMED[p][:2]
            checks.append(dict(property=p, quick_cmd="python3-vt check.py %s" % p,
                               thorough_cmd="python3-vt check.py %s --tier thorough" % p,
                               technique=tech, level=CLAIMED[p][2] if len(CLAIMED[p]) > 2 else "proof",
                               level_note=note))
    man = dict(version=1, setup_cmd="true", checks=checks,
               not_applicable=[dict(property=p, reason=NA.get(p, PENDING)) for p in props if p not in CLAIMED])
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
