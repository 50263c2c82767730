"""Modular verification of video.Video.encode_frame: an arbitrary run of the generator from an arbitrary state.

State invariant (established by the constructor, proved at every point where the generator hands out a command):
  the picture equals the packing of the memory maps (contract of Bitmap.apply, proved by C07),
  the memory maps equal the ghost screen that executes the commands,
  screen holes are blank and carry no priority, priorities are not negative.
Ghost state about one fixed arbitrary screen cell (bank, page, offset) turns the claims about all cells into
first-order ones."""
from specs.common import *
from pyvc import bag
import types


NO = V.SymBool(z3.BoolVal(False))


def sym(b):
    """Always symbolic, so that loop heads see the same shape before and after the first store."""
    return V.SymBool(z3.BoolVal(b)) if isinstance(b, bool) else b


class Mon(EN.Ghost):
    """Ghost state of a run of the generator."""

    def __init__(self):
        self.gm = self.ga = 0        # ghost screen (main, aux) at the observed cell
        self.pend = []               # stores applied to the model since the last command: (page, offset, aux, value)
        self.dw = None               # result of Bitmap.diff_weights
        self.d0 = 0                  # error of the observed cell against the target, before the first command
        self.pri0 = 0                # its priority before the frame
        self.err = 0                 # its error after the stores so far
        self.stored = NO
        self.val = 0                 # value stored last
        self.started = False         # the frame's differences were computed
        self.merged = False          # the queue of changes was built from the updated priorities
        self.pre = None              # its priority when the current command was started
        self.preerr = None
        self.cmd = None              # page, content, deltas of the current command
        self.idle = False


class Box(object):
    def __init__(self, v):
        self.v = v

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "box", self.v is None))


def width(x):
    x = V.as_int(x)
    return x.bit_length() + 1 if isinstance(x, int) else (64 if V.kind(x) == "int" else V.width(x.lo, x.hi))


def hw_hole(p, o):
    """Bytes of the hi-res page that are not displayed: the last 8 of every 128."""
    return (o & 0x7f) >= 120


class State(object):
    """One symbolic video.Video with target, and the observed cell."""

    def __init__(self, m, tab, video, is_aux, level):
        e = V.ENG
        self.lv = level
        self.m, self.tab, self.is_aux = m, tab, is_aux
        g = self.g = Mon()
        e.ghost_roots["mon"] = g
        self.P, self.O = e.fresh_int("P", 0, 31), e.fresh_int("O", 0, 255)
        self.holes = m.screen.SCREEN_HOLES
        self.hole = V.boolean(N.raw(self.holes.at(self.P, self.O))) if hasattr(V, "boolean") else \
            N.raw(self.holes.at(self.P, self.O))
        self.pal = m.palette.Palette.NTSC
        self.RES = z3.Function("residual", z3.BitVecSort(5), z3.BitVecSort(8), z3.BitVecSort(8), z3.BitVecSort(16))
        self.PK = z3.Function("target_packed", z3.BitVecSort(5), z3.BitVecSort(7), z3.BitVecSort(int(m.cls.HEADER_BITS + m.cls.BODY_BITS + m.cls.FOOTER_BITS)))
        fg = types.SimpleNamespace(input_frame_rate=30.0)
        vm = m.prog.load("video_mode").VideoMode
        self.v = v = noexc(e, "Video", video.Video, fg, 14700.0, vm.HGR if m.hgr else vm.DHGR, self.pal)
        self.base(e, v)
        # an arbitrary state of the encoder
        self.main = v.memory_map
        self.aux = None if m.hgr else v.aux_memory_map
        self.main.page_offset = N.fresh_array("screen_main", (32, 256), "uint8")
        v.update_priority = N.fresh_array("priority", (32, 256), "int32")
        if not m.hgr:
            self.aux.page_offset = N.fresh_array("screen_aux", (32, 256), "uint8")
            v.aux_update_priority = N.fresh_array("priority_aux", (32, 256), "int32")
        self.idle0 = {True: e.fresh_bool("idle_aux"), False: e.fresh_bool("idle_main")}
        v.out_of_work = dict(self.idle0)
        self.tmain = mem(m.screen, "target_main")
        self.taux = None if m.hgr else mem(m.screen, "target_aux")
        e.elem_hooks.append(N.ElemInv(self.arrays, self.cells, (32, 256)))
        bound = N.ElemInv(self.arrays, lambda get, idx: [("", V.land(*[
            V.as_int(N.raw(get[u](*idx))) < (1 << 30) for u in get if u.startswith("up")]))], (32, 256))
        for h in e.elem_hooks + [bound]:
            h.reset()
        self.apply_contract()
        v.pixelmap.packed = self.fresh_packed()
        self.target = noexc(e, "target", m.bitmap, self.tmain, self.taux, self.pal)
        self.tm = self.tmain.page_offset.frozen().at
        self.ta = None if m.hgr else self.taux.page_offset.frozen().at
        e.elem_hooks.append(N.Stamp(lambda: v.pixelmap.packed, lambda: [self.main.page_offset] + (
            [] if m.hgr else [self.aux.page_offset]), "the encoder's picture is the packing of its memory maps"))
        g.gm = V.as_int(N.raw(self.main.page_offset.at(self.P, self.O)))
        if not m.hgr:
            g.ga = V.as_int(N.raw(self.aux.page_offset.at(self.P, self.O)))
        g.pri0 = self.pri()
        g.val = e.fresh_int("val0", 0, 255, bv=True)
        self.diff_contract()
        e.user_inv.append(self.inv)
        self.mainq = bag.Tracker((32, 256), (self.P, self.O), want=lambda q: True)
        self.offq = bag.Tracker((256,), (self.O,), order=self.order)
        self.mainq.made = self.made
        e.tracks = [[self.mainq], [self.mainq], [self.mainq, self.offq]][level]
        e.bag_inv = self.entry

    def base(self, e, v):
        p, o = self.P, self.O
        maps = [("main", v.memory_map)] + ([] if self.m.hgr else [("aux", v.aux_memory_map)])
        e.prove("model: the initial screen is blank", V.land(*[V.eq(x.page_offset.at(p, o), 0) for _, x in maps]))
        e.prove("model: the picture shows these memory maps", v.pixelmap.main_memory is v.memory_map and (
            self.m.hgr or v.pixelmap.aux_memory is v.aux_memory_map))
        k = e.fresh_int("column", 0, 127)
        f = noexc(e, "bitmap", self.m.bitmap, v.memory_map, None if self.m.hgr else v.aux_memory_map, self.pal)
        e.prove("model: the initial picture is the packing of the blank screen", V.eq(
            v.pixelmap.packed.at(p, k), f.packed.at(p, k)))
        ups = [v.update_priority] + ([] if self.m.hgr else [v.aux_update_priority])
        e.prove("pending: no priorities at the start", V.land(*[V.eq(u.at(p, o), 0) for u in ups]))

    # -- contracts of the callees
    def fresh_packed(self):
        """Picture of the current memory maps (by the contract of Bitmap.apply); its value does not matter here."""
        return N.fresh_array("picture", (32, 128), "uint64")

    def apply_contract(self):
        st, g = self, self.g

        def apply(bm, page, offset, is_aux, value):
            e = V.ENG
            page, offset, val = V.as_int(N.raw(page)), V.as_int(N.raw(offset)), V.as_int(N.raw(value))
            e.prove("model: stores go to a page and offset of the screen", V.land(page >= 0, page < 32, offset >= 0,
                                                                                offset < 256, val >= 0, val < 256))
            e.prove("model: the encoder changes its own picture", bm is st.v.pixelmap)
            if bm is not st.v.pixelmap:
                raise EN.Infeasible()
            st.begin(page, offset)
            is_aux = bool(is_aux)
            mm = bm.aux_memory if is_aux else bm.main_memory
            mm.page_offset[page, offset] = N.mk("uint8", val)
            bm.packed = st.fresh_packed()
            e.elem_hooks[-1].reset()
            g.pend = g.pend + [(page, offset, is_aux, val)]
            if is_aux == st.is_aux:
                hit = V.land(V.eq(page, st.P), V.eq(offset, st.O))
                if st.lv:
                    g.err = V.ite(hit, st.residual(val), g.err)
                    g.stored = sym(V.lor(g.stored, hit))
                    g.val = V.ite(hit, val, g.val)
        self.v.pixelmap.__class__.apply = apply

    # The error of a position against the target after a store is an arbitrary function of (page, offset, content)
    # here; C09 proves that it is the tabulated distance of the windows before and after the store.
    def res(self, page, o, content):
        cut = lambda x, n: z3.simplify(z3.Extract(n - 1, 0, V.bvterm(x, max(n + 1, width(x)))))
        return V.from_ubv(self.RES(cut(page, 5), cut(o, 8), cut(content, 8)))

    def residual(self, val):
        """Visible error of the observed cell against the target when it holds val."""
        e = V.ENG
        r = self.res(self.P, self.O, val)
        # a window has distance zero from itself (C09 and C10)
        tgt = V.as_int(N.raw((self.ta if self.is_aux else self.tm)(self.P, self.O)))
        e.assume(V.boolterm(V.implies(V.eq(val, tgt), V.eq(r, 0))))
        return r

    def diff_contract(self):
        st, g, m = self, self.g, self.m
        e = V.ENG

        def diff_weights(bm, source, is_aux):
            e = V.ENG
            e.prove("pending: differences of the encoder's picture against the target",
                    bm is st.target and source is st.v.pixelmap and is_aux is st.is_aux)
            e.prove("pending: differences are computed once per frame, before the first command",
                    not g.started and not g.pend)
            dw = N.fresh_array("weights", (32, 256), "int32")
            g.started = True
            g.dw = Box(dw)
            e.elem_hooks.insert(0, N.ElemInv(st.warrays, st.wcells, (32, 256), lambda: g.merged))
            e.elem_hooks[0].lo = True
            e.elem_hooks[0].reset()
            if st.lv:
                g.d0 = V.ite(st.hole, 0, V.as_int(N.raw(dw.at(st.P, st.O))))
                g.err = g.d0
            return dw

        def compute_delta_page(bm, page, content, weights, is_aux):
            e = V.ENG
            page, content = V.as_int(N.raw(page)), V.as_int(N.raw(content))
            e.prove("predictions for the page, content and bank of the command", V.land(
                bm is st.target, is_aux is st.is_aux, len(g.pend) == 1,
                V.eq(page, g.pend[0][0]), V.eq(content, g.pend[0][3])) if g.pend else False)
            fro = weights.frozen()
            if st.lv > 1:
                e.prove("extras: predictions start from the current errors", V.implies(
                    V.eq(page, st.P), V.eq(V.as_int(N.raw(fro.at(st.O))), g.err)))
            delta = N.NArr.lazy((256,), "int32", lambda o: st.res(page, o, content) - V.as_int(N.raw(fro.at(o))))
            g.cmd = Box((page, content, delta))
            st.offq.queue = None
            return delta

        def byte_pair_difference(bm, byte_offset, old_packed, content):
            """Proved by C09: for the packed cell and byte offset of a position, the error after the store."""
            e = V.ENG
            t = z3.simplify(V.bvterm(V.as_int(N.raw(old_packed)), 64))
            while t.decl().kind() in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
                t = t.children()[-1]
            if not t.decl().eq(st.PK):
                raise V.Unsupported("byte_pair_difference of a value that is not read from the target's picture")
            page, col = [V.from_ubv(x) for x in t.children()]
            b = V.as_int(N.raw(byte_offset))
            if m.hgr:
                ok, o = V.land(b >= 0, b < 2), 2 * col + b
            else:
                ok, o = V.land(b >= 0, b < 4, V.eq(b & 1, 0 if st.is_aux else 1)), 2 * col + (b >> 1)
            e.prove("residual errors are computed for this bank", ok)
            return N.mk("uint16", st.res(page, o, content if not hasattr(content, "dt") else V.as_int(N.raw(content))))
        cls = self.target.__class__
        cls.diff_weights, cls.compute_delta_page = diff_weights, compute_delta_page
        cls.byte_pair_difference = byte_pair_difference
        cls.byte_offset = staticmethod(lambda x, is_aux: bo_spec(m, V.as_int(N.raw(x)), bool(is_aux)))
        cut = lambda x, n: z3.simplify(z3.Extract(n - 1, 0, V.bvterm(x, max(n + 1, width(x)))))
        self.target.packed = N.NArr.lazy((32, 128), "uint64", lambda p, c: V.from_ubv(st.PK(cut(p, 5), cut(c, 7))))

    # -- monitors
    def up(self):
        return self.v.aux_update_priority if self.is_aux else self.v.update_priority

    def pri(self):
        return V.as_int(N.raw(self.up().at(self.P, self.O)))

    def begin(self, page, offset):
        """First store of a command: the state before it."""
        g = self.g
        if not g.pend and self.lv:
            g.pre = self.pri()
            g.preerr = g.err

    def made(self):
        """The queue of changes is built: the priorities it starts from."""
        g = self.g
        if not g.merged:
            g.merged = True
            if self.lv == 1:
                V.ENG.prove("pending: priorities resolved by the new frame are dropped, others carried over and "
                            "increased", V.eq(self.pri(), self.merge()))

    def merge(self):
        g = self.g
        return V.ite(V.eq(g.d0, 0), 0, g.pri0 + g.d0)

    def inpend(self):
        g = self.g
        return V.lor(*[V.land(V.eq(p, self.P), V.eq(o, self.O)) for p, o, a, v in g.pend])

    # -- invariants
    def arrays(self):
        v = self.v
        out = dict(main=self.main.page_offset, up=v.update_priority, tmain=self.tmain.page_offset)
        if not self.m.hgr:
            out.update(aux=self.aux.page_offset, upa=v.aux_update_priority, taux=self.taux.page_offset)
        return out

    def cells(self, get, idx):
        hole = N.raw(self.holes.at(*idx))
        i = lambda n: V.as_int(N.raw(get[n](*idx)))
        banks = [("main", "up", "tmain")] + ([] if self.m.hgr else [("aux", "upa", "taux")])
        out = []
        for b, u, t in banks:
            out.append(("holes: screen holes stay blank", V.implies(hole, V.eq(i(b), 0))))
            out.append(("holes: no priority for screen holes", V.implies(hole, V.eq(i(u), 0))))
            out.append(("pending: priorities are not negative", i(u) >= 0))
            if not self.m.hgr:
                out.append(("top bit: never set in DHGR", V.land(i(b) < 128, i(t) < 128)))
        return out

    def warrays(self):
        g = self.g
        return dict(w=g.dw.v)

    def wcells(self, get, idx, merged):
        i = V.as_int(N.raw(get["w"](*idx)))
        hole = N.raw(self.holes.at(*idx))
        out = [("error weights are table values", V.land(i >= 0, i < 65536))]
        if merged:
            out.append(("holes: no weight for screen holes", V.implies(hole, V.eq(i, 0))))
        return out

    def count(self, tr):
        q = getattr(tr, "queue", None)
        if q is None:
            return None
        for t in q.tracks:
            if t.tr is tr:
                return t.count
        return None

    def order(self, v):
        page, content, delta = self.g.cmd.v
        return V.as_int(N.raw(delta.at(self.O))) >= V.as_int(N.raw(v[0]))

    def entry(self, v):
        """Entries put back into the main queue."""
        p, o = V.as_int(v[2]), V.as_int(N.raw(v[3]))
        return [("a visible screen position", V.land(p >= 0, p < 32, o >= 0, o < 256) if True else None),
                ("not a screen hole", V.neg(N.raw(self.holes.at(V.ite(V.land(p >= 0, p < 32), p, 0),
                                                                V.ite(V.land(o >= 0, o < 256), o, 0)))))]

    def model(self):
        """Encoder's memory at the observed cell."""
        a = V.as_int(N.raw(self.main.page_offset.at(self.P, self.O)))
        return a, (0 if self.m.hgr else V.as_int(N.raw(self.aux.page_offset.at(self.P, self.O))))

    def ghost(self, stores):
        g = self.g
        gm, ga = g.gm, g.ga
        for p, o, a, v in stores:
            hit = V.land(V.eq(p, self.P), V.eq(o, self.O))
            if a:
                ga = V.ite(hit, v, ga)
            else:
                gm = V.ite(hit, v, gm)
        return gm, ga

    def inv(self):
        g = self.g
        gm, ga = self.ghost(g.pend)
        mm, ma = self.model()
        out = [("model equals the screen plus the stores of the current command",
                V.land(V.eq(gm, mm), V.eq(ga, ma)))]
        if self.lv and g.started and g.merged:
            up = self.pri()
            out.append(("pending: a cell without priority has no error", V.implies(V.eq(up, 0), V.eq(g.err, 0))))
            out.append(("pending: errors are table values", V.land(g.err >= 0, g.err < 65536)))
            c = self.count(self.mainq)
            if c is not None and not g.idle:
                out.append(("pending: every cell with priority is in the queue", V.implies(V.neg(V.eq(up, 0)), c > 0)))
            if self.lv == 1:
                out.append(("pending: stored values explain the error", V.implies(g.stored, V.eq(
                    g.err, self.residual(g.val)))))
                out.append(("pending: cells never stored keep their error", V.implies(V.neg(g.stored), V.eq(
                    g.err, g.d0))))
            else:
                out += self.inv_extras(up)
        return out

    def inv_extras(self, up):
        g = self.g
        out = [("extras: weights are the current errors", V.eq(
            V.as_int(N.raw(g.dw.v.at(self.P, self.O))), g.err))]
        c = self.count(self.offq)
        if g.cmd is not None and g.pend and c is not None:
            page, content, delta = g.cmd.v
            here = V.eq(page, self.P)
            ex = V.lor(*[V.land(V.eq(p, self.P), V.eq(o, self.O)) for p, o, a, v in g.pend[1:]])
            out.append(("extras: every candidate is offered once", V.implies(here, V.land(
                c >= 0, c <= 1, V.implies(ex, V.eq(c, 0))))))
            d = V.as_int(N.raw(delta.at(self.O)))
            out.append(("extras: positions that profit are offered", V.implies(V.land(
                here, V.neg(self.inpend()), V.neg(V.eq(up, 0)), d < 0), V.eq(c, 1))))
            last = self.offq.queue.last
            if last is not None:
                last = V.as_int(N.raw(last))
                out.append(("extras: what is left is not better than what was offered", V.implies(
                    V.land(here, c > 0), d >= last)))
                out.append(("extras: offered in order", V.land(*[
                    V.as_int(N.raw(delta.at(o))) <= last for p, o, a, v in g.pend[1:]])))
        if g.pend:
            out.append(("extras: cells not touched by the command keep their priority",
                        V.lor(self.inpend(), V.land(V.eq(up, g.pre), V.eq(g.err, g.preerr)))))
        return out

    # -- what a command must satisfy
    def command(self, op):
        e, g = V.ENG, self.g
        ok = isinstance(op, tuple) and len(op) == 3
        e.prove("shape: page, content and offsets", ok)
        if not ok:
            raise EN.Infeasible()
        page, content, offs = op
        page, content = V.as_int(N.raw(page)), V.as_int(N.raw(content))
        offs = [V.as_int(N.raw(o)) for o in list(offs)]
        e.prove("shape: exactly four offsets", len(offs) == 4)
        e.prove("shape: pages 32..63, bytes 0..255", V.land(page >= 32, page < 64, content >= 0, content < 256,
                                                           *[V.land(o >= 0, o < 256) for o in offs]))
        for n, o in enumerate(offs):
            e.prove("holes: every store hits a visible byte", V.neg(N.raw(self.holes.at(page - 32, o))), "offset %d" % n)
        if not self.m.hgr:
            e.prove("top bit: never set in DHGR", content < 128)
        # the screen executes the command
        gm, ga = self.ghost([(page - 32, o, self.is_aux, content) for o in offs])
        mm, ma = self.model()
        e.prove("model: the encoder's main memory is the screen's", V.eq(gm, mm))
        e.prove("model: the encoder's auxiliary memory is the screen's", V.eq(ga, ma))
        g.gm, g.ga = gm, ga
        flag = self.v.out_of_work[self.is_aux]
        if not self.lv:
            g.pend, g.cmd = [], None
            return
        idle = g.idle or not g.pend or (flag is not self.idle0[self.is_aux] and bool(flag))
        if idle:
            g.idle = True
        if idle and self.lv == 1:
            e.prove("idle: no pending change is left", V.eq(self.pri(), 0))
            e.prove("idle: every cell shows no visible error", V.eq(g.err, 0))
            e.prove("idle: cells that differed were stored with a value that shows no error", V.implies(
                V.neg(V.eq(g.d0, 0)), V.land(g.stored, V.eq(self.residual(g.val), 0))))
            e.prove("idle: resolved priorities are dropped", g.merged)
        if not idle and self.lv == 2:
            self.extras(page - 32, content, offs)
        g.pend, g.cmd, g.pre, g.preerr = [], None, None, None

    def extras(self, page, content, offs):
        e, g = V.ENG, self.g
        tgt = (self.ta if self.is_aux else self.tm)(page, offs[0])
        e.prove("extras: the byte the command was chosen for receives its target value",
                V.eq(content, V.as_int(N.raw(tgt))))
        e.prove("extras: work is applied to the model", bool(g.pend))
        if not g.pend:
            return
        # extra positions: different from the first, in order
        k = 1
        while k < 4 and e.entailed(V.boolterm(V.neg(V.eq(offs[k], offs[0])))):
            k += 1
        ex = offs[1:k]
        for o in offs[k:]:
            e.prove("extras: unused places repeat a store of the command", V.lor(*[V.eq(o, x) for x in offs[:k]]))
        for i, o in enumerate(ex):
            for x in ex[:i]:
                e.prove("extras: different positions", V.neg(V.land(V.eq(page, self.P), V.eq(o, self.O),
                                                                   V.eq(x, self.O))))
        here = V.land(V.eq(page, self.P), V.neg(V.eq(offs[0], self.O)))
        chosen = V.land(here, V.lor(*[V.eq(self.O, o) for o in ex]))
        res = self.residual(content)
        e.prove("extras: only positions with a pending difference", V.implies(chosen, V.neg(V.eq(g.pre, 0))))
        e.prove("extras: the error at every extra position strictly decreases", V.implies(chosen, res < g.preerr))
        better = V.land(here, V.neg(chosen), V.neg(V.eq(g.pre, 0)), res < g.preerr)
        if len(ex) < 3:
            e.prove("extras: as many positions as qualify, up to three", V.neg(better))
        if g.cmd is not None:
            d = g.cmd.v[2]
            dd = [V.as_int(N.raw(d.at(o))) for o in ex]
            for a, b in zip(dd, dd[1:]):
                e.prove("extras: best improvements first", a <= b)
            if ex:
                e.prove("extras: best improvements first", V.implies(better, res - g.preerr >= dd[-1]))


def harness(m, tab, video, is_aux, level):
    def f():
        e = V.ENG
        st = State(m, tab, video, is_aux, level)

        def consume():
            for op in st.v.encode_frame(st.target, is_aux):
                st.command(op)
        noexc(e, "encode_frame", consume)
        e.fail("encode_frame never ends", "the generator ended")
    return f


def task(hgr, is_aux, level):
    def f(chk):
        prog = env.transcoder(overrides={"builtins": {"open": env.repo_open}},
                              frame_grabber=env.mod("frame_grabber", FrameGrabber=object, FileFrameGrabber=object))
        m = Mode(prog, hgr)
        video = m.prog.load("video")
        tab = Table(m).install()
        real = m.screen.SCREEN_HOLES
        bad = [(p, o) for p in range(32) for o in range(256) if bool(N.raw(real.at(p, o))) != hw_hole(p, o)] \
            if real.shape == (32, 256) else ["shape"]
        chk.ob("holes: SCREEN_HOLES marks exactly the bytes that are not displayed", not bad, str(bad[:4]),
               backend="evaluation")
        m.screen.SCREEN_HOLES = N.NArr.lazy((32, 256), "bool", hw_hole)
        m.prog.engine(chk, "%s %s: " % (m.name, "aux" if is_aux else "main"), dry=True,
                      jobs=2 if hgr else 3, max_seconds=700).run(
            harness(m, tab, video, is_aux, level))
        for n in ("__init__", "encode_frame", "_index_changes", "_heapify_priorities", "_compute_error"):
            chk.under_contract("video.Video." + n)
        chk.under_contract("screen.Bitmap.byte_pair_difference", "screen.%sBitmap.byte_offset" % m.name)
    return f


# -- obligations of each property
OWN = {"C04": ("model", "picture is the packing"), "C05": ("shape:", "holes:", "top bit:", "visible screen", "screen hole"),
       "C06": ("pending:", "idle:"), "C28": ("extras:",)}
LEVEL = {"C04": 0, "C05": 0, "C06": 1, "C28": 2}


def mine(prop):
    others = [t for p, ts in OWN.items() for t in ts if p != prop]

    def keep(name):
        return any(t in name for t in OWN[prop]) or not any(t in name for t in others)
    return keep


def body(prop):
    def f(chk):
        chk.keep = None
        lv = LEVEL[prop]
        keep = mine(prop)

        def only(g):
            def h(c):
                c.keep = keep
                g(c)
            return h
        par(chk, [("HGR", only(task(True, False, lv))), ("DHGR main", only(task(False, False, lv))),
                  ("DHGR aux", only(task(False, True, lv)))])
        python_trust(chk)
        chk.assume("contracts of Bitmap.apply (proved by C07), diff_weights, compute_delta_page, byte_pair_difference "
                   "and byte_offset (proved by C09): residual errors are table values below 65536 that are zero when "
                   "a byte equals its target")
        chk.assume("C10: a window has distance zero from itself")
        chk.assume("update priorities of a bank are below 2^30 when a frame starts (they grow by one table value per "
                   "frame while a difference stays unresolved)")
        chk.assume("heapq and list keep exactly the entries that were pushed and not popped, smallest first")
        chk.assume("random.getrandbits and numpy.random.randint return any permitted value")
    return f
