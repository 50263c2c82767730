"""C15: FlatMemoryMap and MemoryMap are views of the same 8 KB of memory."""
from specs.common import *


def ra(a, *i):
    return V.as_int(N.raw(a.at(*i)))


def h_views(s, sp):
    def f():
        e = V.ENG
        img = N.fresh_array("image", (8192,), "uint8")
        old = img.frozen()
        flat = noexc(e, "FlatMemoryMap", s.FlatMemoryMap, sp, img)
        e.prove("screen page recorded", flat.screen_page == sp)
        mm = noexc(e, "to_memory_map", flat.to_memory_map)
        e.prove("paged view has screen page and shape", mm.screen_page == sp and mm.page_offset.shape == (32, 256)
                and mm.page_offset.dt == "uint8" and isinstance(mm, s.MemoryMap))
        p, o = e.fresh_int("p", 0, 31), e.fresh_int("o", 0, 255)
        e.prove("byte (page, offset) is byte 256*page+offset", V.eq(ra(mm.page_offset, p, o), ra(old, p * 256 + o)))
        back = noexc(e, "to_flat_memory_map", mm.to_flat_memory_map)
        i = e.fresh_int("i", 0, 8191)
        e.prove("there and back is the identity", V.eq(ra(back.data, i), ra(old, i)))
        e.prove("flat view again", back.screen_page == sp and back.data.shape == (8192,) and back.data.dt == "uint8"
                and isinstance(back, s.FlatMemoryMap))
        e.prove("conversion does not change the image", V.eq(ra(img, i), ra(old, i)))
    return f


def h_paged(s, sp):
    def f():
        e = V.ENG
        img = N.fresh_array("image", (32, 256), "uint8")
        old = img.frozen()
        mm = noexc(e, "MemoryMap", s.MemoryMap, sp, img)
        flat = noexc(e, "to_flat_memory_map", mm.to_flat_memory_map)
        i = e.fresh_int("i", 0, 8191)
        e.prove("byte i of the flat view is byte (i div 256, i mod 256)",
                V.eq(ra(flat.data, i), ra(old, i // 256, i % 256)))
        mm2 = noexc(e, "to_memory_map", flat.to_memory_map)
        p, o = e.fresh_int("p", 0, 31), e.fresh_int("o", 0, 255)
        e.prove("there and back is the identity", V.eq(ra(mm2.page_offset, p, o), ra(old, p, o)))
        e.prove("screen page kept", flat.screen_page == sp and mm2.screen_page == sp)
        # paged writes name the memory page
        pg, off, v = e.fresh_int("page", 32 * sp, 32 * sp + 31), e.fresh_int("offset", 0, 255), e.fresh_int("v", 0, 255)
        noexc(e, "MemoryMap.write", mm.write, pg, off, v)
        here = V.land(V.eq(pg - 32 * sp, p), V.eq(off, o))
        e.prove("a paged write changes exactly the addressed byte",
                V.eq(ra(mm.page_offset, p, o), V.ite(here, v, ra(old, p, o))))
    return f


def h_write(s, sp):
    def f():
        e = V.ENG
        img = N.fresh_array("image", (8192,), "uint8")
        old = img.frozen()
        flat = noexc(e, "FlatMemoryMap", s.FlatMemoryMap, sp, img)
        a, v = e.fresh_int("addr"), e.fresh_int("value", 0, 255)
        inside = bool(V.land(a >= 8192 * sp, a < 8192 * sp + 8192))
        k, r = outcome(flat.write, a, v)
        i = e.fresh_int("i", 0, 8191)
        if inside:
            e.prove("a write inside the screen page is accepted", k == "ok", "addr, value; %r" % (r,))
            e.prove("a write changes exactly the addressed byte",
                    V.eq(ra(flat.data, i), V.ite(V.eq(a - 8192 * sp, i), v, ra(old, i))), "addr, value, cell i")
        else:
            e.prove("a write outside the screen page is rejected", k == "raise" and isinstance(r, Exception),
                    "addr")
            e.prove("a rejected write changes nothing", V.eq(ra(flat.data, i), ra(old, i)))
    return f


def h_default(s, sp):
    def f():
        e = V.ENG
        flat = noexc(e, "FlatMemoryMap", s.FlatMemoryMap, sp)
        mm = noexc(e, "MemoryMap", s.MemoryMap, sp)
        i = e.fresh_int("i", 0, 8191)
        p, o = e.fresh_int("p", 0, 31), e.fresh_int("o", 0, 255)
        e.prove("default flat image is blank", V.land(flat.data.shape == (8192,), flat.data.dt == "uint8",
                                                      V.eq(ra(flat.data, i), 0)))
        e.prove("default paged image is blank", V.land(mm.page_offset.shape == (32, 256), mm.page_offset.dt == "uint8",
                                                       V.eq(ra(mm.page_offset, p, o), 0)))
    return f


def h_badpage(s):
    def f():
        e = V.ENG
        sp = e.fresh_int("screen_page")
        e.assume(z3.And(sp.t != 1, sp.t != 2))
        for c in (s.FlatMemoryMap, s.MemoryMap):
            k, r = outcome(c, sp)
            e.prove("%s rejects other screen pages" % c.__name__, k == "raise" and isinstance(r, ValueError), "screen_page")
    return f


SHAPES = [(), (0,), (1,), (32,), (256,), (8191,), (8193,), (8192, 1), (1, 8192), (256, 32), (32, 256), (8192,), (31, 256),
          (32, 255), (33, 256), (32, 257), (64, 128), (16384,), (2, 32, 256), (32, 16, 16)]


def h_shapes(s):
    def f():
        e = V.ENG
        for c, good in ((s.FlatMemoryMap, (8192,)), (s.MemoryMap, (32, 256))):
            for sh in SHAPES:
                k, r = outcome(c, 1, N.fresh_array("x", sh, "uint8"))
                if sh == good:
                    e.prove("%s accepts its own shape" % c.__name__, k == "ok")
                else:
                    e.prove("%s rejects every other shape" % c.__name__, k == "raise" and isinstance(r, ValueError), str(sh))
            # any one- or two-dimensional size
            n = e.fresh_int("n", 0)
            k, r = outcome(c, 1, N.NArr(N.Buf(n, "uint8", N.Fresh("y", n, "uint8")), (n,)))
            e.prove("%s: one-dimensional images of any size" % c.__name__,
                    (k == "ok") == bool(V.eq(n, 8192) if good == (8192,) else False), "size n")
            a, b = e.fresh_int("rows", 0), e.fresh_int("cols", 0)
            k, r = outcome(c, 1, N.NArr(N.Buf(8192, "uint8", N.Fresh("z", 8192, "uint8")), (a, b)))
            ok = bool(V.land(V.eq(a, 32), V.eq(b, 256))) if good == (32, 256) else False
            e.prove("%s: two-dimensional images of any shape" % c.__name__, (k == "ok") == ok, "shape")
    return f


def task(h, name, *a):
    def f(chk):
        prog = env.transcoder()
        s = prog.load("screen")
        prog.engine(chk, name + ": ").run(h(s, *a))
        chk.under_contract("screen.FlatMemoryMap.__init__", "screen.FlatMemoryMap.to_memory_map",
                           "screen.FlatMemoryMap.write", "screen.MemoryMap.__init__",
                           "screen.MemoryMap.to_flat_memory_map", "screen.MemoryMap.write")
    return f


def body(chk):
    par(chk, [("%s%d" % (n, sp), task(h, "%s page %d" % (n, sp), sp)) for n, h in
              (("flat", h_views), ("paged", h_paged), ("write", h_write), ("default", h_default)) for sp in (1, 2)] +
        [("badpage", task(h_badpage, "screen page")), ("shapes", task(h_shapes, "shape"))])
    python_trust(chk)


def run(tier):
    return execute("C15", tier, body, replay("screen_fuzz.py", "C15"))
