"""C10: distance tables: symmetric, zero on the diagonal, string edit distance of the displayed colours, substitution
costs of the palette.

Generator: make_data_tables.main() is run whole, for one of the four tables at a time; the loops over all pairs of
windows are cut with the invariant that the cells of an arbitrary pair (X, Y) keep their value in every iteration that
is not X's or Y's.  Loader: Bitmap.edit_distances on an arbitrary triangular table."""
import os as real_os
import types
from specs.common import *
from pyvc import tstr
from pyvc.instrument import SymRange

HEX = "0123456789ABCDEF"
COST_MAX = 200          # CIE2000 distances of sRGB colours are below 200


# ------------------------------------------------------------------------------------------ what is displayed
def window_dots(hgr, w, o):
    """Dots influenced by a window, first dot in bit 0 (HGR: previous byte's last three dots, the byte's 14, the next
    byte's first four; DHGR: the window's bits are dots)."""
    def b(i):
        return (w >> i) & 1
    if not hgr:
        return [b(i) for i in range(13)]
    p5, p6, p7 = b(0), b(1), b(2)
    own, top = ([b(3 + i) for i in range(7)], b(10)) if o == 0 else ([b(4 + i) for i in range(7)], b(3))
    n7, n0, n1 = b(11), b(12), b(13)

    def dot(j, bits, top, before):
        late = before if j == 0 else bits[(j - 1) // 2]
        return V.ite(V.eq(top, 1), late, bits[j // 2])
    prev = [None] * 5 + [p5, p6]
    nxt = [n0, n1]
    return ([dot(j, prev, p7, None) for j in (11, 12, 13)] + [dot(j, own, top, p6) for j in range(14)] +
            [dot(j, nxt, n7, own[6]) for j in range(4)])


def pixels(hgr, w, o):
    """Colour numbers of the window's pixels: the four dots from each dot on, rotated left by the colour phase; the
    phase is 0 at the first dot of the screen line, three dots before a byte's first dot the window starts."""
    d = window_dots(hgr, w, o)
    first = (14 * o if hgr else 7 * o) - 3
    out = []
    for k in range(len(d) - 3):
        ph = (first + k) % 4
        v = 0
        for t in range(4):
            v = v + (d[k + t] << ((t + ph) % 4))
        out.append(v)
    return out


def code(v):
    return N.table([ord(c) for c in HEX], v) if not isinstance(v, int) else ord(HEX[v])


def pack(codes):
    return z3.simplify(z3.Concat(*[z3.Extract(7, 0, V.bvterm(c, 9)) for c in codes]))


LEVS = {}


def lev(a, b):
    """Damerau-Levenshtein distance of two strings under the palette's costs: symmetric, 0 on equal strings (the
    library's contract under symmetric costs)."""
    n = len(a)
    f = LEVS.get((n, len(b)))
    if f is None:
        f = LEVS[(n, len(b))] = z3.Function("LEV_%d_%d" % (n, len(b)), z3.BitVecSort(8 * n), z3.BitVecSort(8 * len(b)),
                                            z3.BitVecSort(12))
    x, y = pack(a), pack(b)
    if n == len(b):
        c = z3.ULE(x, y)
        t = z3.If(x == y, z3.BitVecVal(0, 12), f(z3.If(c, x, y), z3.If(c, y, x)))
    else:
        t = f(x, y)
    r = V.from_ubv(z3.simplify(t))
    return r if isinstance(r, int) else V.SymInt(r.t, 0, 4095)


# ------------------------------------------------------------------------------------------ iteration over all windows
class Pairs(object):
    """The observed windows X <= Y and the arrays that hold tables."""

    def __init__(self, target):
        self.target, self.saves, self.arrays, self.stack, self.names = target, 0, (), (), ()
        self.X = self.Y = None
        self.size = None
        self.done = None

    def running(self):
        return self.target is not None and self.saves == self.target


class SegIter(object):
    """Iterator over a range of window numbers, split at the observed windows."""

    def __init__(self, g, lo, hi):
        self.g, self.lo, self.hi, self.cur = g, lo, hi, None
        e = V.ENG
        pts = []
        # rows of other windows need no case split: none of their cells is observed
        # (nor of other byte positions: g.row is only a guess which one this is; a wrong guess proves nothing)
        for p in g.points if not g.stack or g.stack[-1].cur == "one" and g.row in (None, g.bo) else ():
            inside = V.land(p >= lo, p < hi)
            if inside is True or inside is not False and bool(inside):
                pts.append(p)
        self.segs = []
        at = lo
        for p in pts:
            self.segs += [("run", at, p), ("one", p, p + 1)]
            at = p + 1
        self.segs.append(("run", at, hi))
        self.k, self.pos, self.snap = 0, lo, None
        e.symdec += 1
        self.push()
        self.begin()

    def push(self):
        g, e = self.g, V.ENG
        if self in g.stack:
            keep = g.stack[:g.stack.index(self) + 1]
        else:
            keep = g.stack + (self,)
        e.setattr(g, "stack", keep)

    def begin(self):
        e = V.ENG
        e.setattr(self, "snap", self.g.cells())

    def advance(self, act):
        e = V.ENG
        e.symdec += 1
        self.push()
        while self.k < len(self.segs):
            what, lo, hi = self.segs[self.k]
            if what == "run" and bool(self.pos < hi):
                # the position is a window number here: 0 <= lo <= pos < hi <= n
                e.setattr(self, "cur", "run")
                act.value = N.NArr.clampi(self.pos, self.g.n)
                e.setattr(self, "pos", N.NArr.clampi(self.pos + 1, self.g.n + 1))
                return True
            e.setattr(self, "k", self.k + 1)
            e.setattr(self, "pos", hi)
            if what == "one":
                e.setattr(self, "cur", "one")
                act.value = lo
                e.setattr(self, "snap", None)       # taken when the loop continues
                return True
            self.begin()
        e.setattr(self.g, "stack", self.g.stack[:-1])
        return False

    def havoc(self):
        what, lo, hi = self.segs[self.k]
        e = V.ENG
        v = e.fresh_int("window", 0, self.g.n)
        e.assume(V.boolterm(V.land(v >= lo, v <= hi)))
        e.setattr(self, "pos", v)

    def __token__(self):
        return self.pos

    def __unchanged__(self, tok):
        return EN.same(self.pos, tok)

    def __walk__(self, path, slots, sig, node):
        run = self.k < len(self.segs) and self.segs[self.k][0] == "run"
        sig.append((path, "windows", len(self.segs), self.k))
        if run:
            slots[path + ("pos",)] = EN.Slot(self, "custom", None, self.havoc)


class Windows(object):
    def __init__(self, g, lo, hi):
        self.g, self.lo, self.hi = g, lo, hi

    def symiter(self):
        return SegIter(self.g, self.lo, self.hi)

    def __symlen__(self):
        n = self.hi - self.lo
        return V.ite(n > 0, n, 0) if not isinstance(n, int) else max(n, 0)

    def __iter__(self):
        raise Unsupported("native iteration over all windows")


class Setup(object):
    """One run of the generator: library stand-ins with their contracts."""

    def __init__(self, chk, target, bo, hgr, palname, costs=False, guess=True):
        self.costs = costs
        self.calls = ()         # strings of the latest calls: only a hint, see distance
        self.g = g = Pairs(target)
        self.bo, self.hgr, self.palname = bo, hgr, palname
        self.order = None

        class Delta(object):
            """A CIE2000 distance: only its integer part is used."""

            def __init__(self, n):
                self.n = n

            def __symint__(self):
                return self.n

        def convert_color(c, space, *a, **kw):
            if not (isinstance(c, tuple) and c[0] == "sRGB") or space != "LabColor":
                raise Unsupported("convert_color(%r, %r)" % (c, space))
            return ("Lab", c)

        def delta_e_cie2000(a, b, *x, **kw):
            if x or kw or a[0] != "Lab" or b[0] != "Lab":
                raise Unsupported("delta_e_cie2000 with options")
            return Delta(self.delta(a[1], b[1]))

        class ProgressBar(object):
            def __init__(self, *a, **kw):
                self.numerator = 0

        def dam_lev(a, b, **kw):
            return self.dam_lev(a, b, **kw)

        def big(f):
            def wrapped(shape, *a, **kw):
                r = f(shape, *a, **kw)
                e = V.ENG
                if e is not None and e.active and isinstance(r.buf.size, int) and r.buf.size >= 1 << 24:
                    e.setattr(g, "arrays", g.arrays + (r,))
                return r
            return wrapped
        base = N.make_module()

        def savez(name, *a, **kw):
            self.save(name, a, kw)

        def rng(*a):
            v = [V.as_int(N.raw(x)) if not isinstance(x, float) else x for x in a]
            if any(isinstance(x, float) for x in v):
                raise TypeError("'float' object cannot be interpreted as an integer")
            lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
            e = V.ENG
            if e is None or not e.active or all(isinstance(x, int) for x in v) and len(range(*v)) <= 600:
                return range(*v) if all(isinstance(x, int) for x in v) else SymRange(*v)
            if not g.running():
                return range(0)
            if st != 1:
                raise Unsupported("step over windows")
            if not e.entailed(V.boolterm(V.land(lo >= 0, hi <= g.n))):
                raise Unsupported("range beyond the windows")
            return Windows(g, lo, hi)
        conv = env.mod("colormath.color_conversions", convert_color=convert_color)
        diff = env.mod("colormath.color_diff", delta_e_cie2000=delta_e_cie2000)
        objs = env.mod("colormath.color_objects", sRGBColor=env.sRGBColor, LabColor="LabColor")
        cm = env.mod("colormath", color_conversions=conv, color_diff=diff, color_objects=objs)

        def mkdir(path, *a, **kw):
            if bool(V.ENG.fresh_bool("exists")):
                raise FileExistsError(path)
        osm = env.mod("os", mkdir=mkdir, makedirs=lambda p, *a, **kw: None, path=real_os.path)
        prog_cls = env.mod("etaprogress.progress", ProgressBar=ProgressBar)
        self.prog = env.transcoder(
            np_extra={"zeros": big(base.zeros), "empty": big(base.empty), "full": big(base.full),
                      "savez_compressed": savez, "savez": savez},
            overrides={"builtins": {"range": rng, "print": lambda *a, **kw: None}}, os=osm,
            weighted_levenshtein=env.mod("weighted_levenshtein", dam_lev=dam_lev,
                                         damerau_levenshtein=dam_lev),
            etaprogress=env.mod("etaprogress", progress=prog_cls),
            **{"etaprogress.progress": prog_cls, "colormath": cm, "colormath.color_conversions": conv,
               "colormath.color_diff": diff, "colormath.color_objects": objs})
        self.mdt = self.prog.load("make_data_tables")
        self.scr, self.pal, self.col = (self.prog.load(n) for n in ("screen", "palette", "colours"))
        g.row, g.bo = None, bo
        if guess:
            cls = self.scr.HGRBitmap if hgr else self.scr.DHGRBitmap
            dots = cls.to_dots

            def to_dots(masked_val, byte_offset):
                if V.ENG is not None and V.ENG.active:
                    V.ENG.setattr(g, "row", byte_offset)
                return dots(masked_val, byte_offset)
            cls.to_dots = staticmethod(to_dots)

    # -- contracts of the libraries
    def delta(self, p, q):
        k = frozenset((p, q))
        r = self.deltas.get(k)
        if r is None:
            r = 0 if p == q else 1 + len(self.deltas) if not self.costs else V.ENG.fresh_int("delta_%s_%s" % tuple("%d.%d.%d" % c[1:4] for c in sorted(k)), 0, COST_MAX)
            self.deltas[k] = r
        return r

    def cost_spec(self, i, j):
        """Palette distance of the colours numbered i and j (numbers of colours.HGRColours)."""
        p = self.spec_rgb
        return self.delta(p[i], p[j])

    def dam_lev(self, a, b, insert_costs=None, delete_costs=None, substitute_costs=None, transpose_costs=None):
        e, g = V.ENG, self.g
        if not g.running():
            raise Unsupported("distances outside the loops over windows")
        ok = all(isinstance(x, N.NArr) for x in (insert_costs, delete_costs, substitute_costs))
        e.prove("edit distance: insertions, deletions and substitutions are priced", ok)
        if not ok:
            raise EN.Infeasible()
        arrs = [x for x in (insert_costs, delete_costs, substitute_costs, transpose_costs) if x is not None]
        if self.costs:
            self.check_costs(insert_costs, delete_costs, substitute_costs, transpose_costs)
            e.cover("costs")
            raise EN.PathClosed()
        if not g.priced:
            # the loops are verified for arbitrary prices; which prices they are: check_costs
            for buf in {id(x.buf): x.buf for x in arrs}.values():
                buf.set_content(N.Fresh("price", buf.size, buf.dt))
            e.setattr(g, "priced", tuple((x, x.buf, x.buf.content) for x in arrs))
        e.prove("edit distance: the prices are those of the first pair", len(arrs) == len(g.priced) and all(
            x.buf is q and x.buf.content is r and x.off == p.off and x.strides == p.strides
            for x, (p, q, r) in zip(arrs, g.priced)))
        if isinstance(a, (str, tstr.CStr)) and isinstance(b, (str, tstr.CStr)):
            a, b = tstr.CStr.codes_of(a), tstr.CStr.codes_of(b)
            if all(s.cur == "one" for s in g.stack):
                self.calls = self.calls[-3:] + ((a, b),)
            return lev(a, b)
        raise Unsupported("dam_lev of %r" % type(a))

    def distance(self, a, b):
        """lev(a, b), written with the strings of an earlier call that are proved to be a and b (character by
        character: easier for the solver than equality of the distances)."""
        e, g = V.ENG, self.g

        def same(p, q):
            return len(p) == len(q) and all(e.entailed(V.eq(u, v)) for u, v in zip(p, q))
        for p, q in self.calls[::-1]:
            if same(p, a) and same(q, b) or same(q, a) and same(p, b):
                return lev(p, q)
        return lev(a, b)

    def check_costs(self, insert_costs, delete_costs, substitute_costs, transpose_costs):
        e = V.ENG
        bad = [c for c in HEX if not self.at_least(insert_costs, c, 18 * COST_MAX) or
               not self.at_least(delete_costs, c, 18 * COST_MAX)]
        e.prove("edit distance: pixels are never inserted or deleted", not bad)
        for i, c in enumerate(HEX):
            e.prove("costs: substituting colour number %d by any other costs the palette's distance" % i, V.land(
                *[V.eq(N.raw(substitute_costs.at(ord(c), ord(d))), self.cost_spec(i, j)) for j, d in enumerate(HEX)]))
        if transpose_costs is not None:
            e.prove("edit distance: a transposition costs one", all(
                N.raw(transpose_costs.at(ord(c), ord(d))) == 1 for c in HEX for d in HEX))

    @staticmethod
    def at_least(arr, c, n):
        v = N.raw(arr.at(ord(c)))
        return isinstance(v, (int, float)) and v >= n

    # -- the table file
    def save(self, name, a, kw):
        e, g = V.ENG, self.g
        ok = isinstance(name, str) and not a and set(kw) == {"edit_distance"} and isinstance(kw["edit_distance"], N.NArr)
        e.prove("file: holds one array called edit_distance", ok)
        if not ok:
            raise EN.Infeasible()
        k = g.saves
        e.setattr(g, "names", g.names + (name,))
        running = g.running()
        e.setattr(g, "saves", g.saves + 1)
        if running:
            self.check(name, kw["edit_distance"])
            e.cover("table")
            raise EN.PathClosed()

    def check(self, name, arr):
        e, g = V.ENG, self.g
        hgr, o = self.hgr, self.bo
        n = 1 << self.bits
        e.prove("file: the name carries mode and palette", name == self.filename)
        e.prove("table: one row per byte position, one cell per pair of windows",
                arr.shape == (2 if hgr else 4, n * n) and arr.dt == "uint16")
        if arr.shape != (2 if hgr else 4, n * n):
            raise EN.Infeasible()
        x, y = g.X, g.Y

        def cell(a, b):
            return V.as_int(N.raw(arr.at(o, a * n + b)))
        if self.order == "same":
            e.prove("table: zero between a window and itself", V.eq(cell(x, x), 0))
            return
        want = self.distance([code(v) for v in pixels(hgr, y, o)], [code(v) for v in pixels(hgr, x, o)])
        e.prove("table: edit distance of the colours shown for the two windows", V.eq(cell(y, x), want))
        e.prove("table: stored once per pair", V.eq(cell(x, y), 0))

    # -- harness
    def cells(self):
        g = self.g
        n = 1 << self.bits
        pts = [g.X, g.Y] if self.order != "same" else [g.X]
        if self.idx is None:
            rows = (2 if self.hgr else 4)
            pairs = [p * n + q for p in pts for q in pts]
            self.idx = {k: [r * n * n + c for r in range(k) if k != rows or r == self.bo for c in pairs]
                        for k in (1, rows)}
        out = []
        for a in g.arrays:
            k = a.buf.size // (n * n)
            if a.buf.size % (n * n) == 0 and k in self.idx:
                out += [a.buf.content.get(i) for i in self.idx[k]]
        return out

    def inv(self):
        g = self.g
        out = []
        now = None
        for it in g.stack:
            if it.k < len(it.segs) and it.segs[it.k][0] == "run":
                now = now or g.cells()
                if it.snap is None:
                    if it is not g.stack[-1]:
                        continue
                    V.ENG.setattr(it, "snap", now)
                out.append(("cells of other pairs of windows keep their value", len(now) == len(it.snap) and V.land(
                    *[V.eq(a, b) for a, b in zip(now, it.snap)])))
        return out

    def harness(self):
        def f():
            e, g = V.ENG, self.g
            self.deltas, g.priced = {}, ()
            g.saves, g.arrays, g.stack, g.names = 0, (), (), ()
            g.cells = self.cells
            cls = self.scr.HGRBitmap if self.hgr else self.scr.DHGRBitmap
            self.bits = 14 if self.hgr else 13
            self.filename = "transcoder/data/%s_palette_%d_edit_distance.npz" % (
                "HGR" if self.hgr else "DHGR", {"IIGS": 0, "NTSC": 5}[self.palname])
            rgb = {"IIGS": self.pal.IIGSPalette, "NTSC": self.pal.NTSCPalette}[self.palname].RGB
            self.spec_rgb = {c.value: v for c, v in rgb.items()}
            e.prove("costs: the palette names all 16 colours", sorted(self.spec_rgb) == list(range(16)))
            n = g.n = 1 << self.bits
            self.order = "less" if self.costs else ("less", "same")[e.choose(2, "order")]
            g.X = e.fresh_int("X", 0, n - 1)
            if self.order == "less":
                g.Y = e.fresh_int("Y", 0, n - 1)
                e.assume(V.boolterm(g.X < g.Y))
                g.points = [g.X, g.Y]
            else:
                g.Y = g.X
                g.points = [g.X]
            self.idx = None
            e.user_inv.append(self.inv)
            noexc(e, "main", self.mdt.main)
            e.fail("main writes the four tables", "only %d were written" % g.saves)
        return f


TABLES = [("IIGS", True), ("IIGS", False), ("NTSC", True), ("NTSC", False)]


def gen_task(chk, t, bo, target):
    """target: position of the table in the order main() writes them."""
    palname, hgr = TABLES[t]
    for guess in (True, False) if bo is not None else (False,):
        sub = Check("C10", chk.tier)
        s = Setup(sub, target, 0 if bo is None else bo, hgr, palname, costs=bo is None, guess=guess)
        eng = s.prog.engine(sub, "%s palette %s%s: " % ("HGR" if hgr else "DHGR", palname, "" if s.costs else
                                                        " byte %d" % bo), max_paths=20000, max_seconds=500, timeout=90000)
        eng.purity = s.costs        # once per table is enough
        eng.share_havoc = True
        guarded(sub, "%s %s %s" % (palname, hgr, bo), lambda c: eng.run(s.harness()))
        rec = sub.export()
        if all(o["status"] == "discharged" for o in rec["obligations"]):
            break
    chk.merge(rec)
    for f in ("main", "make_edit_distance", "compute_edit_distance", "edit_distance", "compute_substitute_costs",
              "compute_diff_matrix", "pixel_string", "pixel_char"):
        chk.under_contract("make_data_tables." + f)
    for f in ("dots_to_nominal_colour_pixel_values", "dots_to_nominal_colour_pixels", "rol", "_rol"):
        chk.under_contract("colours." + f)
    chk.under_contract("screen.%sBitmap.to_dots" % ("HGR" if hgr else "DHGR"))


def file_names(chk):
    """Which tables main() writes, in order (bodies of the loops over windows left out: they write no file)."""
    names = []
    s = Setup(chk, None, 0, True, "NTSC")

    def f():
        e, g = V.ENG, s.g
        s.deltas, g.priced = {}, ()
        g.saves, g.arrays, g.stack, g.names = 0, (), (), ()
        noexc(e, "main", s.mdt.main)
        names.append(tuple(g.names))
        want = ["transcoder/data/%s_palette_%d_edit_distance.npz" % (m, p) for m in ("HGR", "DHGR") for p in (0, 5)]
        e.prove("main writes the table of every mode and palette once", sorted(g.names) == sorted(want))
        e.cover("names")
    s.prog.engine(chk, "files: ").run(f)
    return names[-1] if names else ()


# ------------------------------------------------------------------------------------------ which colours are shown
def colours_task(chk):
    """The number a mode gives a displayed colour against the number the costs are filed under."""
    s = Setup(chk, None, 0, True, "NTSC")
    col, pal = s.col, s.pal
    for hgr, name in ((True, "HGR"), (False, "DHGR")):
        shown = getattr(col, name + "Colours")
        for pn, p in (("IIGS", pal.IIGSPalette), ("NTSC", pal.NTSCPalette)):
            filed = {c.value: c.name for c in p.RGB}
            for c in shown:
                # a colour that is priced as another one is named in the obligation: each such pair is its own finding
                as_ = filed.get(c.value)
                chk.ob("colours: %s palette %s: %d (%s) is priced as %s" % (name, pn, c.value, c.name,
                                                                            "itself" if as_ == c.name else as_),
                       as_ == c.name, "pixels of this colour have the substitution costs of %s" % as_,
                       backend="evaluation")
        chk.ob("colours: %s: sixteen colours" % name, len(list(shown)) == 16, backend="evaluation")
    # the phase in which both modes number their colours is the display's: contract C11
    chk.under_contract("colours.HGRColours", "colours.DHGRColours", "palette.NTSCPalette", "palette.IIGSPalette")


# ------------------------------------------------------------------------------------------ loader
def load_task(chk, hgr):
    import re
    loads = []
    holder = {}

    def np_load(name, *a, **kw):
        if not isinstance(name, str):
            raise Unsupported("np.load(%r)" % type(name))
        m = re.fullmatch(r"transcoder/data/(D?HGR)_palette_(\d+)_edit_distance\.npz", name)
        e = V.ENG
        e.prove("loads a table that is generated", m is not None and int(m.group(2)) in (0, 5))
        if m is None:
            raise FileNotFoundError(name)
        bits = 14 if m.group(1) == "HGR" else 13
        nb = 2 if m.group(1) == "HGR" else 4
        n = 1 << bits

        def f(o, k):
            a, b = k >> bits, k & (n - 1)
            v = tab(m.group(1), int(m.group(2)), o, a, b)
            return V.ite(a > b, v, 0)
        return {"edit_distance": N.NArr.lazy((nb, n * n), "uint16", f)}

    funs = {}

    def tab(mode, pal, o, a, b):
        """Entry for windows a > b."""
        bits = 14 if mode == "HGR" else 13

        def one(o):
            k = (mode, pal, o)
            if k not in funs:
                funs[k] = z3.Function("E_%s_%d_%d" % k, z3.BitVecSort(bits), z3.BitVecSort(bits), z3.BitVecSort(16))

            def arg(x):
                x = V.as_int(x)
                return z3.simplify(z3.Extract(bits - 1, 0, V.bvterm(x, max(bits + 1, V.width(V.lo(x), V.hi(x))))))
            return V.from_ubv(funs[k](arg(a), arg(b)))
        if isinstance(o, int):
            return one(o)
        r = one((2 if mode == "HGR" else 4) - 1)
        for i in range((2 if mode == "HGR" else 4) - 1):
            r = V.ite(V.eq(o, i), one(i), r)
        return r

    prog = env.transcoder(np_extra={"load": np_load})
    scr, pal = prog.load("screen"), prog.load("palette")
    mode = "HGR" if hgr else "DHGR"
    nb, bits = (2, 14) if hgr else (4, 13)
    n = 1 << bits

    def h():
        e = V.ENG
        cls = scr.HGRBitmap if hgr else scr.DHGRBitmap
        other = scr.DHGRBitmap if hgr else scr.HGRBitmap
        order = e.choose(4, "earlier")
        P, Q = pal.Palette.NTSC, pal.Palette.IIGS
        me = P if e.choose(2, "palette") else Q
        num = 5 if me is P else 0
        # whatever was loaded before
        before = [(), ((cls, me),), ((other, me),), ((cls, Q if me is P else P),)][order]
        for c, p in before:
            noexc(e, "edit_distances", c.edit_distances, p)
        d = noexc(e, "edit_distances", cls.edit_distances, me)
        ok = isinstance(d, N.NArr) and d.shape == (nb, n * n)
        e.prove("one row per byte position, one cell per pair", ok)
        if not ok:
            raise EN.Infeasible()
        x, y = e.fresh_int("X", 0, n - 1), e.fresh_int("Y", 0, n - 1)
        for o in range(nb):
            v = V.as_int(N.raw(d.at(o, x * n + y)))
            w = V.as_int(N.raw(d.at(o, y * n + x)))
            z = V.as_int(N.raw(d.at(o, x * n + x)))
            e.prove("byte %d: the same in both directions" % o, V.eq(v, w), "X, Y")
            e.prove("byte %d: zero between a window and itself" % o, V.eq(z, 0), "X")
            e.prove("byte %d: the distance of the generated table" % o, V.implies(x > y, V.eq(
                v, tab(mode, num, o, x, y))), "X, Y")
        e.cover("loaded")
    eng = prog.engine(chk, "%s loading: " % mode)
    eng.purity = False          # repeated calls are compared in the harness
    eng.run(h)
    chk.under_contract("screen.Bitmap.edit_distances")


def body(chk):
    tasks = [("load HGR", lambda c: load_task(c, True)), ("load DHGR", lambda c: load_task(c, False)),
             ("colours", colours_task)]
    names = file_names(chk)
    for t, (palname, hgr) in enumerate(TABLES):
        fn = "transcoder/data/%s_palette_%d_edit_distance.npz" % ("HGR" if hgr else "DHGR", {"IIGS": 0, "NTSC": 5}[palname])
        if fn in names:
            for bo in [None] + list(range(2 if hgr else 4)):
                tasks.append(("table %s %s" % (fn[16:], bo), lambda c, t=t, bo=bo, k=names.index(fn): gen_task(c, t, bo, k)))
    par(chk, tasks)
    python_trust(chk)
    chk.trust("weighted_levenshtein.dam_lev: the Damerau-Levenshtein distance under the given costs, symmetric when the "
              "costs are and zero for equal strings; with integer costs an integer, at most the sum of the substitutions")
    chk.trust("colormath: delta_e_cie2000 is symmetric, zero for equal colours and below %d; conversions are pure" % COST_MAX)
    chk.trust("numpy savez_compressed/load return the saved array; os.mkdir")
    chk.assume("the tables on disk are the ones make_data_tables.main of this tree writes")


def run(tier):
    return execute("C10", tier, body, replay("tables_fuzz.py", "C10"))
