"""C12: coordinate <-> address mapping of the hi-res screen."""
from specs.common import *


def hw(y, page):
    """Address of the first byte of row y on hi-res page 1 or 2 (Apple II reference manual):
    base + (y mod 8)*1024 + ((y div 8) mod 8)*128 + (y div 64)*40."""
    return 0x2000 * (page + 1) + (y % 8) * 1024 + ((y // 8) % 8) * 128 + (y // 64) * 40


def h_formula(scr):
    def f():
        e = V.ENG
        y, page = e.fresh_int("y", 0, 191), e.fresh_int("page", 0, 1)
        r = noexc(e, "y_to_base_addr", scr.y_to_base_addr, y, page)
        e.prove("row address equals the hi-res layout", V.eq(r, hw(y, page)), "y, page")
        r0 = noexc(e, "y_to_base_addr", scr.y_to_base_addr, y)
        e.prove("default page is page 1", V.eq(r0, hw(y, 0)))
        # one-to-one on 192 x 40 and 2 pages
        y2, p2 = e.fresh_int("y2", 0, 191), e.fresh_int("page2", 0, 1)
        x, x2 = e.fresh_int("x", 0, 39), e.fresh_int("x2", 0, 39)
        a, b = r + x, noexc(e, "y_to_base_addr", scr.y_to_base_addr, y2, p2) + x2
        e.prove("one-to-one", V.implies(V.eq(a, b), V.land(V.eq(y, y2), V.eq(x, x2), V.eq(page, p2))))
        e.prove("on the page", V.land(a >= 0x2000 * (page + 1), a < 0x2000 * (page + 2)))
    return f


def body(chk):
    par(chk, [("formula", lambda c: formula(c)), ("tables", lambda c: tables(c))])
    python_trust(chk)
    chk.assume("the module tables are constants computed at import; they are evaluated completely (every index)")


def formula(chk):
    prog = env.transcoder()
    prog.engine(chk, "y_to_base_addr: ").run(h_formula(prog.load("screen")))
    chk.under_contract("screen.y_to_base_addr")


def tables(chk):
    s = env.transcoder().load("screen")
    chk.under_contract("screen._populate_mappings (complete evaluation)")

    def arr(a, *i):
        return V.as_int(N.raw(a.at(*i)))

    def group(name, items):
        bad = [d for d, ok in items if not ok]
        chk.ob("tables: " + name, not bad, "wrong at %s" % (bad[:4],), backend="evaluation")

    cells = [(y, x) for y in range(192) for x in range(40)]
    group("Y_TO_BASE_ADDR", [((p, y), len(s.Y_TO_BASE_ADDR) == 2 and len(s.Y_TO_BASE_ADDR[p]) == 192 and
                              s.Y_TO_BASE_ADDR[p][y] == hw(y, p)) for p in (0, 1) for y in range(192)])

    def po(y, x):
        a = hw(y, 0) + x - 0x2000
        return a // 256, a % 256
    group("X_Y_TO_PAGE", [((y, x), arr(s.X_Y_TO_PAGE, y, x) == po(y, x)[0]) for y, x in cells])
    group("X_Y_TO_OFFSET", [((y, x), arr(s.X_Y_TO_OFFSET, y, x) == po(y, x)[1]) for y, x in cells])
    group("PAGE_OFFSET_TO_X", [((y, x), arr(s.PAGE_OFFSET_TO_X, *po(y, x)) == x) for y, x in cells])
    group("PAGE_OFFSET_TO_Y", [((y, x), arr(s.PAGE_OFFSET_TO_Y, *po(y, x)) == y) for y, x in cells])
    image = {po(y, x) for y, x in cells}
    group("SCREEN_HOLES", [((p, o), bool(N.raw(s.SCREEN_HOLES.at(p, o))) == ((p, o) not in image))
                           for p in range(32) for o in range(256)])
    group("number of holes", [(0, sum(bool(N.raw(s.SCREEN_HOLES.at(p, o))) for p in range(32)
                                      for o in range(256)) == 512)])
    group("shapes", [(n, getattr(s, n).shape == sh) for n, sh in
                     (("X_Y_TO_PAGE", (192, 40)), ("X_Y_TO_OFFSET", (192, 40)), ("PAGE_OFFSET_TO_X", (32, 256)),
                      ("PAGE_OFFSET_TO_Y", (32, 256)), ("SCREEN_HOLES", (32, 256)))])
    group("ADDR_TO_COORDS", [((p, y, x), s.ADDR_TO_COORDS.get(hw(y, p) + x) == (p, y, x))
                             for p in (0, 1) for y, x in cells])
    group("ADDR_TO_COORDS has no other address", [(len(s.ADDR_TO_COORDS), len(s.ADDR_TO_COORDS) == 2 * 192 * 40)])


def run(tier):
    return execute("C12", tier, body, replay("screen_fuzz.py", "C12"))
