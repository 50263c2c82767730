"""Falsifier for C04, C05, C06, C28: runs the real Video.encode_frame on random frames and banks, executes the
commands on a screen and compares with the encoder's own state and with an independent account of pending errors."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
PROP = sys.argv[1]
SECS = float(sys.argv[2]) if len(sys.argv) > 2 else 60
stub("frame_grabber", FileFrameGrabber=object, FrameGrabber=object)
import time
import types
import io
import contextlib
import numpy as np
import screen
import video
import video_mode
import palette

R = rnd()
T0 = time.time()
HOLES = [[(o & 0x7f) >= 120 for o in range(256)] for p in range(32)]
POP = np.array([bin(i).count("1") for i in range(1 << 14)], dtype=np.uint16)
KIND = ["hash"]


def dist2(mb, o, pal, a, b):
    """Distances with many equivalent windows and graded closeness."""
    if KIND[0] == "hash":
        return dist(mb, o, pal, a, b)
    return int(POP[(a ^ b) & MASKS[KIND[0]]]) * 3


MASKS = {"pop": 0x3fff, "coarse": 0x2a4a, "mid": 0x0ff8}


class Row2(Row):
    def __getitem__(self, pair):
        if KIND[0] == "hash":
            return Row.__getitem__(self, pair)
        if isinstance(pair, np.ndarray):
            p = pair.astype(np.uint64)
            mb = np.uint64(self.mb)
            x = ((p >> mb) ^ p) & np.uint64(((1 << self.mb) - 1) & MASKS[KIND[0]])
            return (POP[x.astype(np.int64)] * 3).astype(np.uint16)
        pair = int(pair)
        return np.uint16(dist2(self.mb, self.o, self.pal, pair >> self.mb, pair & ((1 << self.mb) - 1)))


class Table2(object):
    def __init__(self, mb, nb, pal):
        self.rows = [Row2(mb, o, pal) for o in range(nb)]

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self.rows[k[0]][k[1]]
        return self.rows[k]


def edit_distances(cls, palette_id):
    return Table2(int(cls.MASKED_BITS), len(cls.BYTE_MASKS), palette_id.value)


screen.Bitmap.edit_distances = classmethod(edit_distances)


def val(hgr):
    x = R.choice((0, 0x80, 0xff, 0x7f, 1, 0x40, 0xc0)) if R.random() < .5 else R.randrange(256)
    return x if hgr else x & 0x7f


def image(hgr, base=None, changes=None):
    if base is not None:
        im = base.copy()
        for _ in range(changes):
            im[R.randrange(32), R.randrange(256)] = val(hgr)
        if R.random() < .3:
            im[0, 0] = val(hgr)
        return im
    k = R.random()
    if k < .2:
        c = [val(hgr) for _ in range(3)]
        d = [R.choice(c) for _ in range(8192)]
    else:
        d = [val(hgr) for _ in range(8192)]
    im = np.array(d, dtype=np.uint8).reshape((32, 256))
    if R.random() < .7:
        im[np.array(HOLES)] = 0
    return im


class Run(object):
    def __init__(self, hgr, pal, main=None, aux=None, pri=None):
        self.hgr, self.pal = hgr, pal
        fg = types.SimpleNamespace(input_frame_rate=30.)
        vm = video_mode.VideoMode.HGR if hgr else video_mode.VideoMode.DHGR
        self.v = video.Video(fg, 14700., vm, pal)
        self.screen = {False: np.zeros((32, 256), dtype=np.uint8), True: np.zeros((32, 256), dtype=np.uint8)}
        self.pri = {False: np.zeros((32, 256), dtype=np.int64), True: np.zeros((32, 256), dtype=np.int64)}
        self.hist = []
        self.cls = screen.HGRBitmap if hgr else screen.DHGRBitmap
        self.mb = int(self.cls.MASKED_BITS)

    def bitmap(self, main, aux):
        m = screen.MemoryMap(1, main.copy())
        if self.hgr:
            return self.cls(palette=self.pal, main_memory=m)
        return self.cls(palette=self.pal, main_memory=m, aux_memory=screen.MemoryMap(1, aux.copy()))

    def fail(self, what, **kw):
        fail("%s %s" % ("HGR" if self.hgr else "DHGR", what), table=KIND[0], history=self.hist[-6:], **kw)

    def model(self, is_aux):
        return (self.v.aux_memory_map if is_aux else self.v.memory_map).page_offset

    def compare(self):
        if PROP != "C04":
            return
        for b in ((False,) if self.hgr else (False, True)):
            m = self.model(b)
            if not np.array_equal(m, self.screen[b]):
                d = np.argwhere(m != self.screen[b])[0].tolist()
                self.fail("the encoder assumes byte %d at page %d offset %d (aux %s), the screen holds %d" % (
                    m[d[0], d[1]], d[0], d[1], b, self.screen[b][d[0], d[1]]))
        f = self.bitmap(self.screen[False], self.screen[True])
        if not np.array_equal(f.packed, self.v.pixelmap.packed):
            d = np.argwhere(f.packed != self.v.pixelmap.packed)[0].tolist()
            self.fail("the encoder's picture differs from the screen's at packed cell %r" % d)

    def frame(self, main, aux, is_aux, count):
        v, hgr, pal = self.v, self.hgr, self.pal
        target = self.bitmap(main, aux)
        self.hist.append("frame, aux %s, up to %d commands" % (is_aux, count))
        v.out_of_work = {True: False, False: False}
        tgt = (aux if is_aux else main)
        err = np.zeros((32, 256), dtype=np.int64)
        sm, sa = self.screen[False], self.screen[True]
        D = lambda o, a, b: dist2(self.mb, bo(hgr, o, is_aux), pal.value, a, b)
        for p in range(32):
            for o in range(256):
                if not HOLES[p][o]:
                    a, b = window(hgr, sm, sa, p, o, is_aux), window(hgr, main, aux, p, o, is_aux)
                    if a != b:
                        err[p, o] = D(o, a, b)
        pri = self.pri[is_aux]
        pri[err == 0] = 0
        pri += err
        self.cmp_pri = True
        started = False
        with contextlib.redirect_stdout(io.StringIO()):
            g = v.encode_frame(target, is_aux)
            for n in range(count):
                op = next(g)
                started = self.command(op, tgt, main, aux, err, pri, is_aux, D, n)
                if started == "idle" and n > 20 and R.random() < .3:
                    break
            g.close()
        self.compare()
        return target

    def command(self, op, tgt, main, aux, err, pri, is_aux, D, n):
        v, hgr = self.v, self.hgr
        page, content, offs = op
        page, content, offs = int(page), int(content), [int(o) for o in offs]
        self.hist.append("command page=%d content=%d offsets=%r" % (page, content, offs))
        if PROP == "C05":
            if not (32 <= page < 64 and 0 <= content < 256 and len(offs) == 4 and all(0 <= o < 256 for o in offs)):
                self.fail("illegal command", command=(page, content, offs))
            if any(HOLES[page - 32][o] for o in offs):
                self.fail("store into a screen hole", command=(page, content, offs))
            if not hgr and content > 127:
                self.fail("top bit set", command=(page, content, offs))
        p = page - 32
        for o in offs:
            if 0 <= p < 32 and 0 <= o < 256:
                self.screen[is_aux][p, o] = content
        if PROP == "C04":
            m = self.model(is_aux)
            for o in offs:
                if int(m[p, o]) != content:
                    self.fail("command stores %d at page %d offset %d, the encoder assumes %d" % (
                        content, page, o, m[p, o]))
        up = v.aux_update_priority if is_aux else v.update_priority
        if PROP == "C06" and n == 0:
            mask = np.ones((32, 256), dtype=bool)
            mask[p, offs] = False
            if not np.array_equal(np.array(up)[mask], pri[mask]):
                d = np.argwhere((np.array(up) != pri) & mask)[0].tolist()
                self.fail("pending priority of page %d offset %d is %d at the start of the frame, expected %d" % (
                    d[0], d[1], up[d[0], d[1]], pri[d[0], d[1]]))
        pend = pri != 0
        if v.out_of_work[is_aux]:
            if PROP == "C06" and (pend.any() or err.any()):
                d = np.argwhere(pend | (err != 0))[0].tolist()
                self.fail("idle although page %d offset %d is pending (priority %d, error %d)" % (
                    d[0], d[1], pri[d[0], d[1]], err[d[0], d[1]]))
            if not pend.any():
                for o in offs:
                    self.check_idle(p, o, content, main, aux, is_aux, D)
                return "idle"
        first = offs[0]
        if PROP == "C28" and content != int(tgt[p, first]):
            self.fail("first store of the command is %d at page %d offset %d, target %d" % (
                content, page, first, tgt[p, first]))
        ex = []
        for o in offs[1:]:
            if o not in ex and o != first:
                ex.append(o)
        gain = {}
        for o in range(256):
            if o != first and pri[p, o] and not HOLES[p][o]:
                d = D(o, window(hgr, main, aux, p, o, is_aux), window(hgr, main, aux, p, o, is_aux, content))
                if d < err[p, o]:
                    gain[o] = err[p, o] - d
        if PROP == "C28":
            for o in ex:
                if o not in gain:
                    self.fail("extra store of %d at page %d offset %d does not reduce a pending error (priority %d, "
                              "error %d)" % (content, page, o, pri[p, o], err[p, o]), command=(page, content, offs))
            want = min(3, len(gain))
            if len(ex) < want:
                self.fail("%d extra positions used although %d qualify" % (len(ex), len(gain)),
                          command=(page, content, offs), qualifying=sorted(gain))
            gs = [gain[o] for o in ex]
            rest = [gain[o] for o in gain if o not in ex]
            if any(a < b for a, b in zip(gs, gs[1:])) or (rest and gs and max(rest) > gs[-1]):
                self.fail("extra positions are not the best improvements in order", gains=gs, left=rest[:8],
                          command=(page, content, offs))
        pri[p, first] = err[p, first] = 0
        if content != int(tgt[p, first]):
            err[p, first] = D(first, window(hgr, main, aux, p, first, is_aux),
                              window(hgr, main, aux, p, first, is_aux, content))
        for o in ex:
            d = D(o, window(hgr, main, aux, p, o, is_aux), window(hgr, main, aux, p, o, is_aux, content))
            pri[p, o] = err[p, o] = d

    def check_idle(self, p, o, content, main, aux, is_aux, D):
        if PROP == "C06":
            d = D(o, window(self.hgr, main, aux, p, o, is_aux), window(self.hgr, main, aux, p, o, is_aux, content))
            if d:
                self.fail("idle filler introduces an error of %d at page %d offset %d" % (d, p, o))


def main():
    P = palette.Palette
    ms = model_inputs()
    n = 0
    while time.time() - T0 < SECS:
        hgr = n % 2 == 0
        KIND[0] = ["hash", "coarse", "pop", "mid"][(n // 2) % 4]
        n += 1
        r = Run(hgr, [P.NTSC, P.IIGS][R.randrange(2)])
        base, basea = image(hgr), image(hgr)
        if R.random() < .6:
            base, basea = np.zeros((32, 256), np.uint8), np.zeros((32, 256), np.uint8)
        is_aux = False
        for k in range(4):
            if time.time() - T0 > SECS:
                break
            sparse = R.choice((0, 5, 60, 400))
            base, basea = image(hgr, base, sparse), image(hgr, basea, sparse)
            cnt = 2500 if sparse < 400 and R.random() < .4 else R.choice((1, 3, 20, 120))
            try:
                r.frame(base, basea, is_aux, cnt)
                if R.random() < .5 and not hgr:
                    is_aux = not is_aux
                    r.frame(base, basea, is_aux, R.choice((1, 30, 200)))
            except (AssertionError, IndexError, ValueError, StopIteration, TypeError) as e:
                import traceback
                fr = traceback.extract_tb(sys.exc_info()[2])[-1]
                if os.path.realpath(fr.filename).startswith(os.path.realpath(REPO) + os.sep):
                    r.fail("encode_frame raises %r at %s:%d" % (e, os.path.basename(fr.filename), fr.lineno))
                raise
            if not hgr and R.random() < .5:
                is_aux = not is_aux
    print("ok: %d runs" % n)


main()
