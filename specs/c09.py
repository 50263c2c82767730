"""C09: errors assigned to positions and predicted for stores are table entries of the right windows."""
from specs.common import *


class Pair(object):
    def __init__(self, m, tab):
        self.m, self.tab = m, tab
        self.main, self.aux = {}, {}
        self.b = {}
        e = V.ENG
        self.pal = [m.palette.Palette.NTSC, m.palette.Palette.IIGS][e.choose(2, "palette")]
        for t in ("source", "target"):
            mm = mem(m.screen, t + "_main")
            am = None if m.hgr else mem(m.screen, t + "_aux")
            self.b[t] = noexc(e, "constructor", m.bitmap, mm, am, self.pal)
            self.main[t] = mm.page_offset.frozen().at
            self.aux[t] = None if am is None else am.page_offset.frozen().at
        self.is_aux = bool(e.fresh_bool("is_aux")) if not m.hgr else False
        self.fro = {t: self.b[t].packed.frozen() for t in self.b}

    def win(self, t, page, off, content=None):
        return window_spec(self.m, self.main[t], self.aux[t], page, off, self.is_aux, content)

    def frame(self, e, what):
        p, c = e.fresh_int("fp", 0, 31), e.fresh_int("fc", 0, 127)
        for t in self.b:
            e.prove("%s leaves the %s picture unchanged" % (what, t), V.land(
                self.b[t].packed.shape == (32, 128), V.eq(self.b[t].packed.at(p, c), self.fro[t].at(p, c))))
            for mm, f in ((self.b[t].main_memory, self.main[t]), (self.b[t].aux_memory, self.aux[t])):
                if mm is not None:
                    o = e.fresh_int("fo", 0, 255)
                    e.prove("%s leaves the %s memory unchanged" % (what, t), V.eq(mm.page_offset.at(p, o), f(p, o)))


def h_assign(m, tab):
    def f():
        e = V.ENG
        q = Pair(m, tab)
        d = noexc(e, "diff_weights", q.b["target"].diff_weights, q.b["source"], q.is_aux)
        p, o = e.fresh_int("page", 0, 31), e.fresh_int("offset", 0, 255)
        e.prove("diff_weights: one error per byte position", d.shape == (32, 256))
        want = dist_at(m, tab, q.pal.name, o, q.is_aux, q.win("source", p, o), q.win("target", p, o))
        e.prove("diff_weights: error is the tabulated distance of the two windows",
                V.eq(V.as_int(N.raw(d.at(p, o))), want), "page, offset")
        q.frame(e, "diff_weights")
    return f


def h_predict(m, tab):
    def f():
        e = V.ENG
        q = Pair(m, tab)
        p, o = e.fresh_int("page", 0, 31), e.fresh_int("offset", 0, 255)
        c = N.mk("uint8", e.fresh_int("content", 0, 255))
        dw = N.fresh_array("weights", (256,), "int32")
        cur = V.as_int(N.raw(dw.at(o)))
        e.assume(z3.And(V.boolterm(cur >= 0), V.boolterm(cur < 65536)))
        d = noexc(e, "compute_delta_page", q.b["target"].compute_delta_page, p, c, dw, q.is_aux)
        e.prove("compute_delta_page: one prediction per offset", d.shape == (256,))
        want = dist_at(m, tab, q.pal.name, o, q.is_aux, q.win("target", p, o, c.v), q.win("target", p, o))
        e.prove("compute_delta_page: predicted change is distance after the store minus error before",
                V.eq(V.as_int(N.raw(d.at(o))), want - cur), "page, offset, content")
        q.frame(e, "compute_delta_page")
        e.prove("compute_delta_page leaves the weights unchanged", V.eq(V.as_int(N.raw(dw.at(o))), cur))
    return f


def h_residual(m, tab):
    def f():
        e = V.ENG
        q = Pair(m, tab)
        p, o = e.fresh_int("page", 0, 31), e.fresh_int("offset", 0, 255)
        c = N.mk("uint8", e.fresh_int("content", 0, 255))
        t = q.b["target"]
        bo = noexc(e, "byte_offset", t.byte_offset, o, q.is_aux)
        e.prove("byte_offset numbers the windows as the tables do", V.eq(bo, bo_spec(m, o, q.is_aux)))
        r = noexc(e, "byte_pair_difference", t.byte_pair_difference, bo, t.packed[p, o // 2], c)
        want = dist_at(m, tab, q.pal.name, o, q.is_aux, q.win("target", p, o), q.win("target", p, o, c.v))
        e.prove("byte_pair_difference: tabulated distance before/after the store",
                V.eq(V.as_int(N.raw(r)), want), "page, offset, content")
        q.frame(e, "byte_pair_difference")
    return f


def task(hgr, h, name):
    def f(chk):
        m = Mode(env.transcoder(), hgr)
        tab = Table(m).install()
        m.prog.engine(chk, "%s %s: " % (m.name, name)).run(h(m, tab))
        chk.under_contract("screen.Bitmap.diff_weights", "screen.Bitmap._diff_weights",
                           "screen.Bitmap.compute_delta_page", "screen.Bitmap._diff_weights_page",
                           "screen.Bitmap.byte_pair_difference", "screen.Bitmap.mask_and_shift_data",
                           "screen.Bitmap._fix_array_neighbours", "screen.Bitmap._fix_column_left",
                           "screen.Bitmap._fix_column_right",
                           *["screen.%sBitmap.%s" % (m.name, n) for n in
                             ("_byte_offsets", "byte_offset", "masked_update", "_make_header", "_make_footer")])
    return f


def body(chk):
    par(chk, [("%s %s" % ("HGR" if h else "DHGR", n), task(h, f, n)) for h in (True, False)
              for n, f in (("assign", h_assign), ("predict", h_predict), ("residual", h_residual))])
    python_trust(chk)
    chk.assume("the distance tables are arbitrary symmetric tables with zero diagonal indexed by (byte offset, window "
               "pair) per palette: the contract that C10 proves for the tables the code generates")


def run(tier):
    return execute("C09", tier, body, replay("screen_fuzz.py", "C09"))
