"""Assemble /repo/player in a scratch directory and load the result."""
import os, re, shutil, subprocess, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


class Player:
    """The assembled player: memory image + entry points, from the current source."""

    def __init__(self, image, symbols, dbg_text):
        self.image = image          # dict addr -> byte (loaded ranges only)
        self.symbols = symbols      # all labels of the linker debug file: name -> set of values
        self.dbg_text = dbg_text

    def sym(self, name):
        v = self.symbols.get(name, ())
        if len(v) != 1:
            raise BuildError("symbol %s has %d values" % (name, len(v)))
        return next(iter(v))


def parse_dbg(text):
    syms = {}
    for line in text.split("\n"):
        if not line.startswith("sym\t"):
            continue
        name = re.search(r'name="([^"]*)"', line)
        val = re.search(r'\bval=(0x[0-9A-Fa-f]+)', line)
        typ = re.search(r'\btype=(\w+)', line)
        if name and val and typ and typ.group(1) == "lab":
            syms.setdefault(name.group(1), set()).add(int(val.group(1), 16))
    return syms


def build():
    scratch = tempfile.mkdtemp(prefix="verif_player_")
    try:
        d = os.path.join(scratch, "player")
        shutil.copytree(os.path.join(REPO, "player"), d)
        for f in os.listdir(d):
            if f.endswith((".o", ".lst", ".dsk", ".map", ".dbg")) or f == "iivision":
                os.unlink(os.path.join(d, f))
        r = subprocess.run(
            ["make", "build", "CC65_BIN=/usr/bin", "CC65_HOME=/usr/share/cc65"],
            cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        binary = os.path.join(d, "iivision")
        dbg = os.path.join(d, "iivision.dbg")
        if not (os.path.exists(binary) and os.path.exists(dbg)):
            raise BuildError("player does not assemble:\n" + r.stdout[-3000:])
        data = open(binary, "rb").read()
        dbg_text = open(dbg).read()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # AppleSingle header (0x3a bytes, written by cc65's exehdr.s), then the image at $0800.
    if data[:4] != b"\x00\x05\x16\x00":
        raise BuildError("unexpected executable header %r" % data[:8])
    ent = {}
    for k in range(int.from_bytes(data[24:26], "big")):
        e = data[26 + 12 * k: 38 + 12 * k]
        i, off, ln = (int.from_bytes(e[j:j + 4], "big") for j in (0, 4, 8))
        ent[i] = (off, ln)
    hdr = ent[1][0]                                   # data fork
    info = data[ent[11][0]:ent[11][0] + ent[11][1]]   # ProDOS file info
    start = int.from_bytes(info[4:8], "big")          # aux type = load address
    image = {start + i: b for i, b in enumerate(data[hdr:])}
    return Player(image, parse_dbg(dbg_text), dbg_text)


if __name__ == "__main__":
    p = build()
    print(len(p.image), len(p.symbols), hex(p.sym("op_ack")), hex(max(p.image)))
