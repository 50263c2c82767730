"""C08: packed picture data, seen through mask_and_shift_data/to_dots, is the dot sequence of the display hardware."""
from specs.common import *


def bit(b, i):
    """Bit i of byte term b (i concrete)."""
    return (b >> i) & 1


class Hgr(object):
    """Dots of the HGR display: per byte, 7 data bits doubled; with the top bit set shifted right by one dot, the
    first dot then holding the last dot of the previous byte."""
    name = "HGR"
    dots = 21        # three dots of the previous byte, this byte's 14, four of the next

    def __init__(self, main, aux, is_aux):
        self.main = main

    def byte(self, page, col):
        inside = V.land(col >= 0, col < 256)
        b = V.as_int(N.raw(self.main(page, V.ite(inside, col, 0))))
        return V.ite(inside, b, 0)

    def dot(self, page, col, j):
        b = self.byte(page, col)
        prev = self.byte(page, col - 1)
        shifted = bit(prev, 6) if j == 0 else bit(b, (j - 1) // 2)
        return V.ite(V.eq(bit(b, 7), 1), shifted, bit(b, j // 2))

    def at(self, page, off, n):
        """Dot n-3 relative to the first dot of the byte at off."""
        j = n - 3
        return self.dot(page, off + (-1 if j < 0 else 0 if j < 14 else 1), j % 14)


class Dhgr(object):
    """Dots of the DHGR display: seven low bits of auxiliary and main bytes alternately."""
    name = "DHGR"
    dots = 13

    def __init__(self, main, aux, is_aux):
        self.main, self.aux, self.is_aux = main, aux, is_aux

    def byte(self, page, col2):
        """col2: column of 7 dots counted over both banks; concretely even/odd relative to the byte looked at."""
        off, aux = col2
        inside = V.land(off >= 0, off < 256)
        b = V.as_int(N.raw((self.aux if aux else self.main)(page, V.ite(inside, off, 0))))
        return V.ite(inside, b, 0)

    def at(self, page, off, n):
        j = n - 3
        step = -1 if j < 0 else 0 if j < 7 else 1
        if step == 0:
            c = (off, self.is_aux)
        elif step < 0:
            c = (off, True) if not self.is_aux else (off - 1, False)
        else:
            c = (off, False) if self.is_aux else (off + 1, True)
        return bit(self.byte(page, c), j % 7)


def spec(m):
    return Hgr if m.hgr else Dhgr


def window(m, b, page, off, is_aux):
    """Masked window of a bitmap at a byte position as a Python int, computed by the code under test."""
    bo = b.byte_offset(off, is_aux)
    w = m.cls.mask_and_shift_data(b.packed[page, off // 2], bo)
    return bo, w


def h_dots(m):
    def f():
        e = V.ENG
        main = mem(m.screen, "main")
        aux = None if m.hgr else mem(m.screen, "aux")
        b = noexc(e, "constructor", m.bitmap, main, aux)
        page, off = e.fresh_int("page", 0, 31), e.fresh_int("offset", 0, 255)
        is_aux = bool(e.fresh_bool("is_aux")) if not m.hgr else False
        sp = spec(m)(main.page_offset.at, None if aux is None else aux.page_offset.at, is_aux)
        bo, w = noexc(e, "window", window, m, b, page, off, is_aux)
        wi = V.as_int(N.raw(w))
        e.prove("window fits the tabulated range", V.land(wi >= 0, wi < (1 << int(m.cls.MASKED_BITS))))
        d = V.as_int(noexc(e, "to_dots", m.cls.to_dots, wi, bo))
        for n in range(sp.dots):
            e.prove("dot %d%s" % (n - 3, " (%s byte)" % ("previous" if n < 3 else "this" if n < sp.dots - (4 if m.hgr else 3) else "next")),
                    V.eq((d >> n) & 1, sp.at(page, off, n)), "page, offset")
        e.prove("no dots beyond the surroundings", V.eq(d >> sp.dots, 0))
        e.cover("dots")
    return f


def task(hgr):
    def f(chk):
        m = Mode(env.transcoder(), hgr)
        m.prog.engine(chk, "%s dots: " % m.name).run(h_dots(m))
        chk.under_contract("screen.Bitmap._pack", "screen.Bitmap.mask_and_shift_data",
                           *["screen.%sBitmap.%s" % (m.name, n) for n in
                             ("_body", "_make_header", "_make_footer", "to_dots", "byte_offset")])
        if hgr:
            chk.under_contract("screen.HGRBitmap._double_pixels")
    return f


def body(chk):
    par(chk, [("HGR", task(True)), ("DHGR", task(False))])
    python_trust(chk)
    chk.assume("the hardware dot model stated in the property (written independently in specs/c08.py)")


def run(tier):
    return execute("C08", tier, body, replay("screen_fuzz.py", "C08"))
