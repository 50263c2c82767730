"""C10 on the real code: costs, sampled table rows, the files written, the loaded tables."""
import os
import sys
import random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import builtins
import itertools
import numpy as np
import colormath.color_conversions as cc
import colormath.color_diff as cd
import colormath.color_objects as co
import weighted_levenshtein
import make_data_tables as mdt
import screen
import palette
import colours

HEX = "0123456789ABCDEF"
R = random.Random(int(os.environ.get("VERIF_SEED", "1")))


def dots(hgr, w, o):
    b = lambda i: (w >> i) & 1
    if not hgr:
        return [b(i) for i in range(13)]
    own, top = ([b(3 + i) for i in range(7)], b(10)) if o == 0 else ([b(4 + i) for i in range(7)], b(3))

    def dot(j, bits, top, before):
        if top:
            return before if j == 0 else bits[(j - 1) // 2]
        return bits[j // 2]
    prev, nxt = [None] * 5 + [b(0), b(1)], [b(12), b(13)]
    return ([dot(j, prev, b(2), None) for j in (11, 12, 13)] + [dot(j, own, top, b(1)) for j in range(14)] +
            [dot(j, nxt, b(11), own[6]) for j in range(4)])


def pixels(hgr, w, o):
    d = dots(hgr, w, o)
    first = (14 * o if hgr else 7 * o) - 3
    return "".join(HEX[sum(d[k + t] << ((t + first + k) % 4) for t in range(4))] for k in range(len(d) - 3))


def spec_costs(pal):
    lab = {c.value: cc.convert_color(v, co.LabColor) for c, v in pal.RGB.items()}
    return {(i, j): int(cd.delta_e_cie2000(lab[i], lab[j])) for i in range(16) for j in range(16)}


def check_costs(edp, pal, where):
    want = spec_costs(pal)
    for i, j in itertools.product(range(16), range(16)):
        got = float(edp.substitute_costs[ord(HEX[i]), ord(HEX[j])])
        if got not in (want[i, j], want[j, i]):
            fail("substituting colour %d by %d costs %s, the palette's distance is %d" % (i, j, got, want[i, j]),
                 palette=pal.__name__, where=where)


def lev(a, b, costs):
    sub = np.zeros((128, 128), dtype=np.float64)
    for (i, j), v in costs.items():
        sub[ord(HEX[i]), ord(HEX[j])] = v
    return sub


def wrong_costs():
    for pal in palette.PALETTES.values():
        check_costs(mdt.compute_substitute_costs(pal), pal, "compute_substitute_costs")


def sampled(n, keep):
    real = builtins.range

    def rng(*a):
        r = real(*[int(x) for x in a])
        if len(r) <= 600:
            return r
        pick = {r[0], r[-1]} | {R.choice(r) for _ in real(3 if len(r) == n else 60)} | {x for x in keep if x in r}
        return sorted(pick)
    return rng


def wrong_rows():
    pal = palette.NTSCPalette
    costs = spec_costs(pal)
    sub = lev("", "", costs)
    big = np.ones(128, dtype=np.float64) * 100000
    pairs = [(v.get("vars", {}).get("X"), v.get("vars", {}).get("Y")) for v in model_inputs()]
    for hgr, cls, nom in ((False, screen.DHGRBitmap, colours.DHGRColours), (True, screen.HGRBitmap, colours.HGRColours)):
        bits = 14 if hgr else 13
        n = 1 << bits
        seen = set()
        keep = {x for p in pairs for x in p if isinstance(x, int) and x < n} | {0, 1, n - 1}
        mdt.range = sampled(n, keep)
        mdt.print = lambda *a, **kw: None
        edp = mdt.compute_substitute_costs(pal)
        real = mdt.edit_distance
        edit = mdt.compute_edit_distance(edp, cls, nom)
        rows = [int(x) for x in sorted(keep)] + [R.randrange(n) for _ in builtins.range(40)]
        nz = [int(k) for o in builtins.range(edit.shape[0]) for k in np.nonzero(edit[o])[0][:200000]]
        cand = set((k >> bits, k & (n - 1)) for k in R.sample(nz, min(len(nz), 3000)))
        cand |= {(a, b) for a in keep for b in keep}
        for o in builtins.range(2 if hgr else 4):
            for a, b in cand:
                got = int(edit[o, (a << bits) + b]) + int(edit[o, (b << bits) + a])
                pa, pb = pixels(hgr, a, o), pixels(hgr, b, o)
                want = 0 if a == b else int(weighted_levenshtein.dam_lev(
                    pa, pb, insert_costs=big, delete_costs=big, substitute_costs=sub))
                if got != want and (a in keep and b in keep or int(edit[o, (a << bits) + b]) or int(edit[o, (b << bits) + a])):
                    fail("table entry of windows %d and %d at byte %d is %d, the distance of %s and %s is %d" % (
                        a, b, o, got, pa, pb, want), mode="HGR" if hgr else "DHGR")
        del edit


def wrong_files():
    names, costs = [], []
    real_c, real_s, real_m = mdt.compute_edit_distance, np.savez_compressed, os.mkdir

    def compute(edp, bitmap, nominal):
        costs.append((bitmap, nominal, edp.substitute_costs.copy()))
        return np.zeros((1, 1), dtype=np.uint16)
    mdt.compute_edit_distance = compute
    mdt.np.savez_compressed = lambda name, **kw: names.append((name, costs[-1]))
    mdt.os.mkdir = lambda *a, **kw: None
    mdt.print = lambda *a, **kw: None
    try:
        mdt.main()
    finally:
        mdt.compute_edit_distance, mdt.np.savez_compressed, mdt.os.mkdir = real_c, real_s, real_m
    want = sorted("transcoder/data/%s_palette_%d_edit_distance.npz" % (m, p) for m in ("HGR", "DHGR") for p in (0, 5))
    if sorted(n for n, _ in names) != want:
        fail("main writes %s" % sorted(n for n, _ in names))
    for n, (bitmap, nominal, sub) in names:
        pal = palette.IIGSPalette if "_palette_0_" in n else palette.NTSCPalette
        cls = screen.DHGRBitmap if "DHGR" in n else screen.HGRBitmap
        if bitmap is not cls:
            fail("%s holds the table of %s" % (n, bitmap.__name__))

        class E(object):
            substitute_costs = sub
        check_costs(E, pal, n)


def wrong_load():
    real = np.load
    for cls, pal, bits, nb in ((screen.DHGRBitmap, palette.Palette.NTSC, 13, 4),
                               (screen.DHGRBitmap, palette.Palette.IIGS, 13, 4),
                               (screen.HGRBitmap, palette.Palette.IIGS, 14, 2)):
        n = 1 << bits
        t = np.zeros((nb, n * n), dtype=np.uint16)
        cells = []
        xs = [v.get("vars", {}).get(k) for v in model_inputs() for k in ("X", "Y")]
        xs = [x for x in xs if isinstance(x, int) and x < n] + [0, 1, 2, n - 1, n - 2, n // 2, n // 2 - 1]
        pts = [(a, b) for a in xs for b in xs if a > b][:2000]
        for _ in range(3000):
            a, b = R.randrange(n), R.randrange(n)
            if a != b:
                pts.append((max(a, b), min(a, b)))
        for o in range(nb):
            for a, b in pts:
                t[o, (a << bits) + b] = (a * 31 + b * 7 + o * 101) % 60000 + 1
        asked = []

        def load(name, *a, **kw):
            asked.append(name)
            return {"edit_distance": t.copy()}
        np.load = load
        try:
            d = cls.edit_distances(pal)
        finally:
            np.load = real
        want = "transcoder/data/%s_palette_%d_edit_distance.npz" % ("HGR" if bits == 14 else "DHGR", pal.value)
        if asked and asked != [want]:
            fail("%s palette %s loads %s" % (cls.__name__, pal, asked))
        for o in range(nb):
            for a, b in pts:
                w = int(t[o, (a << bits) + b])
                for p, q in ((a, b), (b, a)):
                    got = int(d[o][(p << bits) + q])
                    if got != w:
                        fail("distance of windows %d and %d at byte %d is %d, generated was %d" % (p, q, o, got, w),
                             mode=cls.__name__)
            for a in range(n):
                if int(d[o][(a << bits) + a]):
                    fail("distance of window %d and itself is %d" % (a, int(d[o][(a << bits) + a])), mode=cls.__name__)
        del d, t


wrong_costs()
wrong_files()
wrong_rows()
wrong_load()
print("OK")
