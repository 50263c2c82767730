"""C07: Bitmap.apply keeps the packed picture equal to a fresh packing of memory, and changes one byte."""
from specs.common import *


def h_step(m):
    """One store at an arbitrary position of an arbitrary consistent screen (inductive step)."""
    def f():
        e = V.ENG
        main = mem(m.screen, "main")
        aux = None if m.hgr else mem(m.screen, "aux")
        b = noexc(e, "constructor", m.bitmap, main, aux)
        old = {"main": main.page_offset.frozen(), "aux": None if aux is None else aux.page_offset.frozen()}
        page, off = e.fresh_int("page", 0, 31), e.fresh_int("offset", 0, 255)
        v = e.fresh_int("value", 0, 255)
        is_aux = bool(e.fresh_bool("is_aux")) if not m.hgr else False
        noexc(e, "apply", b.apply, page, off, is_aux, N.mk("uint8", v))
        e.cover("stored")
        p, o = e.fresh_int("p", 0, 31), e.fresh_int("o", 0, 255)
        e.prove("memory maps stay attached", b.main_memory is main and b.aux_memory is aux)
        for nm, mm in (("main", main), ("aux", aux)):
            if mm is None:
                continue
            here = V.land(V.eq(p, page), V.eq(o, off)) if (nm == "aux") == is_aux else False
            want = V.ite(here, v, V.as_int(N.raw(old[nm].at(p, o))))
            e.prove("a store changes exactly the addressed byte (%s memory)" % nm,
                    V.eq(mm.page_offset.at(p, o), want), "page/offset/value of the store, observed cell p,o")
            e.prove("%s memory keeps shape and type" % nm,
                    mm.page_offset.shape == (32, 256) and mm.page_offset.dt == "uint8")
        fresh = noexc(e, "constructor", m.bitmap, main, aux)
        c = e.fresh_int("column", 0, 127)
        e.prove("packed picture has shape 32x128 of uint64",
                b.packed.shape == (32, 128) and b.packed.dt == "uint64" and fresh.packed.shape == (32, 128))
        e.prove("packed picture equals the one computed afresh", V.eq(b.packed.at(p, c), fresh.packed.at(p, c)),
                "store (page, offset, value), differing packed cell (p, column)")
    return f


def task(hgr):
    def f(chk):
        m = Mode(env.transcoder(), hgr)
        e = m.prog.engine(chk, "%s apply: " % m.name)
        e.run(h_step(m))
        chk.under_contract("screen.Bitmap.__init__", "screen.Bitmap._pack", "screen.Bitmap.apply",
                           "screen.Bitmap._fix_scalar_neighbours", "screen.Bitmap._fix_column_left",
                           "screen.Bitmap._fix_column_right", "screen.MemoryMap.write", "screen.MemoryMap.__init__",
                           *["screen.%sBitmap.%s" % (m.name, n) for n in
                             ("_body", "_make_header", "_make_footer", "masked_update", "byte_offset")])
    return f


def body(chk):
    par(chk, [("HGR", task(True)), ("DHGR", task(False))])
    python_trust(chk)
    chk.assume("induction: the constructor establishes the invariant (packed = packing of memory), every store "
               "preserves it from an arbitrary state satisfying it; nothing but apply() writes a bitmap's arrays "
               "between stores (checked for the encoder by C04)")


def run(tier):
    return execute("C07", tier, body, replay("screen_fuzz.py", "C07"))
