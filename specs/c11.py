"""C11: colour of a dot = 4-dot window starting there rotated left by the colour phase."""
from specs.common import *


def rot(x, k):
    """4-bit value x rotated left by k (0..3) places."""
    x = V.as_int(x)
    r = [x]
    for _ in range(3):
        x = ((x << 1) & 15) | (x >> 3)
        r.append(x)
    out = r[3]
    for i in (2, 1, 0):
        out = V.ite(V.eq(k, i), r[i], out)
    return out


def nib(v):
    """Value known to be 0..15 as a 4-bit quantity."""
    v = V.as_int(v)
    if isinstance(v, int):
        return v & 15
    if V.kind(v) == "int":
        return V.mkbv(z3.ZeroExt(1, z3.Int2BV(v.t % 16, 4)), 0, 15)
    return v & 15


def h_rot(c, name):
    """Contract of rol/ror: rotation by howmany modulo four, for every howmany (loop invariant inferred from the
    template res == rot(x, i mod 4))."""
    def f():
        e = V.ENG
        x = e.fresh_int("x", 0, 15)
        n = e.fresh_int("howmany", 0)
        fn = getattr(c, name)

        def amount(k):
            k = V.as_int(k) % 4
            k = k if name == "rol" else (4 - k) % 4
            return k

        def tmpl(a, b):
            if isinstance(a, SymIntT) and V.kind(a) == "bv" and (isinstance(b, int) or V.kind(b) == "int"):
                return V.land(a >= 0, a < 16, V.eq(nib(a), rot(x, amount(b))))
            if isinstance(a, SymIntT) and V.kind(a) == "int" and (isinstance(b, int) or V.kind(b) == "int"):
                return V.land(a >= 0, a < 16, V.eq(nib(a), rot(x, amount(b))))
            return None
        e.templates = [tmpl]
        r = noexc(e, name, fn, x, n)
        e.prove("%s is a 4-bit value" % name, V.land(r >= 0, r < 16), "x, howmany")
        e.prove("%s rotates by howmany modulo four" % name, V.eq(nib(r), rot(x, amount(n))), "x, howmany")
        e.cover("end")
    return f


def h_rot_small(c):
    def f():
        e = V.ENG
        x = e.fresh_int("x", 0, 15)
        n = e.choose(9, "howmany")
        a, b = noexc(e, "rol", c.rol, x, n), noexc(e, "ror", c.ror, x, n)
        e.prove("rol by a given amount", V.eq(a, rot(x, n % 4)), "x, howmany=%d" % n)
        e.prove("ror by a given amount", V.eq(b, rot(x, (4 - n % 4) % 4)), "x, howmany=%d" % n)
        e.prove("left and right rotation are inverse", V.land(V.eq(noexc(e, "ror", c.ror, a, n), x),
                                                              V.eq(noexc(e, "rol", c.rol, b, n), x)))
    return f


SymIntT = V.SymInt


class Shifted(object):
    """G(i) = dots shifted right by i, defined by G(0) = dots and G(i+1) = G(i) div 2."""

    def __init__(self, dots):
        self.f = z3.Function("G", z3.IntSort(), z3.IntSort())
        self.seen = set()
        V.ENG.assume(self.f(0) == V.intterm(dots))

    def at(self, k):
        t = z3.simplify(V.intterm(k))
        if t.get_id() not in self.seen:
            self.seen.add(t.get_id())
            self.keep = getattr(self, "keep", []) + [t]
            V.ENG.assume(z3.Implies(t >= 0, z3.And(self.f(t) >= 0, self.f(t + 1) == self.f(t) / 2)))
        return V.SymInt(self.f(t), 0, None)


def contract(c):
    """Callers use the contracts of rol/ror (proved separately), not their bodies."""
    def rol(x, k):
        e = V.ENG
        if e is None or not e.active:
            return real[0](x, k)
        e.prove("precondition of rol", V.land(x >= 0, x < 16, k >= 0))
        return rot(nib(x), V.as_int(k) % 4)

    def ror(x, k):
        e = V.ENG
        if e is None or not e.active:
            return real[1](x, k)
        e.prove("precondition of ror", V.land(x >= 0, x < 16, k >= 0))
        return rot(nib(x), (4 - V.as_int(k) % 4) % 4)
    real = (c.rol, c.ror)
    c.rol, c.ror = rol, ror


def h_seq(c, cls, which):
    """Sequence for any number of dots, any dot string and any initial phase."""
    def f():
        e = V.ENG
        dots, num = e.fresh_int("dots", 0), e.fresh_int("num_bits", 0)
        init = e.choose(4, "phase")
        G = Shifted(dots)
        colours = getattr(c, cls)

        def spec(k):
            return rot(nib(G.at(k)), (V.as_int(k) + init) % 4)
        e.grow = spec
        e.templates = [
            lambda a, b: V.eq(V.as_int(a), G.at(b)) if kint(a) and kint(b) else None,
            lambda a, b: V.land(V.eq(a, (V.as_int(b) + init) % 4)) if kint(a) and kint(b) else None,
        ]
        fn = c.dots_to_nominal_colour_pixels if which == "colours" else c.dots_to_nominal_colour_pixel_values
        r = noexc(e, "call", fn, num, dots, colours, init)
        n = r.__symlen__() if hasattr(r, "__symlen__") else len(r)
        e.prove("one colour per dot", V.eq(n, num), "num_bits, dots, phase=%d" % init)
        k = e.fresh_int("k", 0)
        e.assume(V.boolterm(k < num))
        x = r[k]
        if which == "colours":
            e.prove("elements are members of the colour set given", (x.cls if hasattr(x, "cls") else type(x)) is colours)
            x = x.value
        e.prove("colour at position k is the 4-dot window rotated by the phase", V.eq(nib(x), spec(k)), "k, dots")
        e.cover("end")
    return f


def kint(a):
    return isinstance(a, int) or (isinstance(a, V.SymInt) and V.kind(a) == "int")


def h_small(c, cls, nmax):
    """The same for the lengths the encoder uses, by complete unrolling with the real rol, on 32-bit dot strings;
    default phase; real names of the colour sets."""
    def f():
        e = V.ENG
        num = e.choose(nmax + 1, "num_bits")
        dots = e.fresh_int("dots", 0, (1 << 28) - 1)
        colours = getattr(c, cls)
        default = bool(e.fresh_bool("default_phase"))
        init = 1 if default else e.choose(4, "phase")
        args = (num, dots, colours) + (() if default else (init,))
        r = noexc(e, "pixels", c.dots_to_nominal_colour_pixels, *args)
        v = noexc(e, "pixel values", c.dots_to_nominal_colour_pixel_values, *args)
        e.prove("one colour per dot", V.land(len(r) == num, len(v) == num))
        for k in range(num):
            w = rot((dots >> k) & 15, (k + init) % 4)
            e.prove("colour %d" % k, V.land(V.eq(r[k].value, w), (r[k].cls if hasattr(r[k], "cls") else type(r[k])) is colours))
            e.prove("colour value %d" % k, V.eq(v[k], w))
        if num >= 5:
            per = V.land(*[V.eq((dots >> k) & 1, (dots >> (k + 4)) & 1) for k in range(num - 1)])
            e.prove("a pattern of period four shows one constant colour",
                    V.implies(per, V.land(*[V.eq(v[k], v[0]) for k in range(num)])))
    return f




def task(h, name, *a, **kw):
    def f(chk):
        prog = env.transcoder()
        c = prog.load("colours")
        if kw.get("modular"):
            contract(c)
        prog.engine(chk, name + ": ").run(h(c, *a))
        chk.under_contract("colours.rol", "colours.ror", "colours._rol", "colours._ror",
                           "colours.dots_to_nominal_colour_pixels", "colours.dots_to_nominal_colour_pixel_values")
    return f


def names(chk):
    """The colour sets name all sixteen 4-bit patterns."""
    c = env.transcoder().load("colours")
    for n in ("HGRColours", "DHGRColours"):
        cls = getattr(c, n)
        chk.ob("%s names every 4-bit pattern once" % n, sorted(m.value for m in cls) == list(range(16)) and
               len(cls.__members__) == 16)
    for a in c.HGRColours:
        b = c.DHGRColours[a.name]
        chk.ob("%s: HGR pattern is the DHGR pattern advanced by one phase" % a.name,
               b.value == ((a.value << 1) & 15 | a.value >> 3) or a.value == ((b.value << 1) & 15 | b.value >> 3))


def body(chk):
    t = [("names", names), ("rol", task(h_rot, "rol", "rol")), ("ror", task(h_rot, "ror", "ror")),
         ("rot small", task(h_rot_small, "rotations"))]
    for cls in ("HGRColours", "DHGRColours"):
        for w in ("colours", "values"):
            t.append(("seq %s %s" % (cls, w), task(h_seq, "any length, %s, %s" % (cls, w), cls, w, modular=True)))
        t.append(("small %s" % cls, task(h_small, "lengths up to 21, %s" % cls, cls, 21)))
    par(chk, t)
    python_trust(chk, numpy=False)


def run(tier):
    return execute("C11", tier, body, replay("colours_fuzz.py", "C11"))
