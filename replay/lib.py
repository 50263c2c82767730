"""Shared parts of the falsifiers: they run the real code of /repo on PyPy, unmodified, and print
FAIL {json} with a failing input when a property is violated."""
import json
import os
import random
import sys
import types

SEED = int(os.environ.get("VERIF_SEED", "1"))
REPO = os.environ.get("VERIF_REPO", "/repo")


def stub(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)
    sys.modules[name] = m
    return m


stub("librosa")
stub("audioread")


def fail(what, **kw):
    kw["what"] = what
    sys.__stdout__.write("FAIL " + json.dumps(kw, default=str) + "\n")
    sys.__stdout__.flush()
    os._exit(0)


def model_inputs():
    """Counterexamples handed over by the verifier."""
    if sys.stdin is None or sys.stdin.isatty():
        return []
    try:
        return json.loads(sys.stdin.read() or "[]")
    except ValueError:
        return []


def cells(model, name, size, default=0):
    """Array content of a counterexample."""
    a = model.get("arrays", {}).get(name)
    out = [default] * size
    if a:
        o = a.get("other", 0)
        out = [o if isinstance(o, int) else 0] * size
        for k, v in a["cells"]:
            if isinstance(k, int) and 0 <= k < size and isinstance(v, int):
                out[k] = v
    return out


class Row(object):
    def __init__(self, mb, o, pal):
        self.mb, self.o, self.pal = mb, o, pal

    def __getitem__(self, pair):
        import numpy as np
        if isinstance(pair, np.ndarray):
            p = pair.astype(np.uint64)
            mb = np.uint64(self.mb)
            a, b = p >> mb, p & np.uint64((1 << self.mb) - 1)
            lo, hi = np.minimum(a, b), np.maximum(a, b)
            h = lo * np.uint64(2654435761) + hi * np.uint64(40503) + np.uint64(977 * self.o + 131 * self.pal)
            h = (h >> np.uint64(9)) & np.uint64(0x3fff)
            h[lo == hi] = 0
            return h.astype(np.uint16)
        return np.uint16(dist(self.mb, self.o, self.pal, int(pair) >> self.mb, int(pair) & ((1 << self.mb) - 1)))


def dist(mb, o, pal, a, b):
    lo, hi = min(a, b), max(a, b)
    if lo == hi:
        return 0
    return (((lo * 2654435761 + hi * 40503 + 977 * o + 131 * pal) & ((1 << 64) - 1)) >> 9) & 0x3fff


class HashTable(object):
    """Symmetric synthetic distance table with zero diagonal."""

    def __init__(self, mb, nb, pal):
        self.rows = [Row(mb, o, pal) for o in range(nb)]

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self.rows[k[0]][k[1]]
        return self.rows[k]


def install_tables(screen):
    def edit_distances(cls, palette_id):
        return HashTable(int(cls.MASKED_BITS), len(cls.BYTE_MASKS), palette_id.value)
    screen.Bitmap.edit_distances = classmethod(edit_distances)


def byte(mem, page, off):
    return int(mem[page][off]) if 0 <= off <= 255 else 0


def window(hgr, main, aux, page, off, is_aux, content=None):
    own = int((aux if is_aux else main)[page][off]) if content is None else content
    if hgr:
        prev, nxt = byte(main, page, off - 1), byte(main, page, off + 1)
        lo3 = ((prev >> 5) & 3) | ((prev >> 7) << 2)
        if off % 2 == 0:
            return lo3 | (own << 3) | ((nxt >> 7) << 11) | ((nxt & 3) << 12)
        return lo3 | ((own >> 7) << 3) | ((own & 0x7f) << 4) | ((nxt >> 7) << 11) | ((nxt & 3) << 12)
    if is_aux:
        prev, nxt = byte(main, page, off - 1), byte(main, page, off)
    else:
        prev, nxt = byte(aux, page, off), byte(aux, page, off + 1)
    return ((prev >> 4) & 7) | ((own & 0x7f) << 3) | ((nxt & 7) << 10)


def bo(hgr, off, is_aux):
    return off % 2 if hgr else 2 * (off % 2) + (0 if is_aux else 1)


def dots(hgr, main, aux, page, off, is_aux):
    """List of display dots around a byte, starting three dots before it."""
    out = []
    if hgr:
        def dot(col, j):
            b = byte(main, page, col)
            if b & 0x80:
                return (byte(main, page, col - 1) >> 6) & 1 if j == 0 else (b >> ((j - 1) // 2)) & 1
            return (b >> (j // 2)) & 1
        for n in range(-3, 18):
            out.append(dot(off + (-1 if n < 0 else 0 if n < 14 else 1), n % 14))
        return out
    k0 = (2 * off + (0 if is_aux else 1)) * 7
    for n in range(-3, 10):
        k = k0 + n
        col, b = k // 7, k % 7
        out.append((byte(aux if col % 2 == 0 else main, page, col // 2) >> b) & 1)
    return out


def rnd(seed=0):
    return random.Random(SEED * 1000003 + seed)


def hook(t, v, tb):
    """An exception raised inside the code under test on a valid input is a failing input too."""
    import traceback
    fr = traceback.extract_tb(tb)
    inner = fr[-1]
    if os.path.realpath(inner.filename).startswith(os.path.realpath(REPO) + os.sep) and not issubclass(
            t, (ImportError, KeyboardInterrupt, MemoryError)):
        fail("the code raises %s: %s (%s:%d)" % (t.__name__, v, os.path.basename(inner.filename), inner.lineno),
             traceback="".join(traceback.format_exception(t, v, tb))[-1500:])
    sys.__excepthook__(t, v, tb)


sys.excepthook = hook
