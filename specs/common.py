"""Shared machinery of the Python specifications: parallel harnesses, symbolic screens and bitmaps."""
import os
import sys
import time
import traceback
import multiprocessing as mp
import z3

from core.report import Check, execute, run_replay, REPO
from pyvc import env, engine as EN, nparr as N, values as V
from pyvc.values import Unsupported


def par(chk, tasks, procs=8):
    """Run harness tasks [(label, fn(check))] in forked workers and merge their obligations."""
    sys.setrecursionlimit(200000)
    if os.environ.get("VERIF_SERIAL"):
        for label, fn in tasks:
            guarded(chk, label, fn)
        return
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    todo = list(tasks)
    running = {}
    while todo or running:
        while todo and len(running) < procs:
            label, fn = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(chk.prop, chk.tier, label, fn, w))
            p.start()
            w.close()
            running[p] = (label, r)
        from multiprocessing.connection import wait
        for c in wait([r for _, r in running.values()], timeout=5):
            for p, (label, r) in list(running.items()):
                if r is c:
                    try:
                        rec = r.recv()
                        chk.merge(rec)
                    except EOFError:
                        chk.undecided("%s:engine" % label, "worker ended without a result")
                    p.join()
                    del running[p]


def child(prop, tier, label, fn, w):
    chk = Check(prop, tier)
    guarded(chk, label, fn)
    w.send(chk.export())
    w.close()


def guarded(chk, label, fn):
    try:
        fn(chk)
    except Unsupported as e:
        chk.undecided("%s:engine" % label, "outside the verified subset: %s\n%s" % (e, traceback.format_exc()[-900:]))
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        chk.undecided("%s:engine" % label, "%r\n%s" % (e, traceback.format_exc()[-1800:]))


def outcome(f, *a, **kw):
    """('ok', value) or ('raise', exception) of a call of the code under test."""
    try:
        return "ok", f(*a, **kw)
    except (Unsupported, EN.PathClosed, EN.Infeasible, EN.Restart):
        raise
    except Exception as e:
        return "raise", e


def noexc(e, name, f, *a, **kw):
    """Call f; an exception violates obligation `name`."""
    k, v = outcome(f, *a, **kw)
    if k == "raise":
        tb = v.__traceback__
        fr = [x for x in traceback.extract_tb(tb) if "pyvc" not in x.filename][-3:] or traceback.extract_tb(tb)[-1:]
        e.fail("%s: no exception" % name, "%r at %s" % (v, " > ".join(
            "%s:%s" % (os.path.basename(x.filename), x.lineno) for x in fr)))
        raise EN.Infeasible()
    e.prove("%s: no exception" % name, True)
    return v


# ------------------------------------------------------------------------------------------ screens
def mem(screen, name, lo=0, hi=255):
    return screen.MemoryMap(1, N.fresh_array(name, (32, 256), "uint8"))


class Mode(object):
    """One display mode of the transcoder with a bitmap constructor."""

    def __init__(self, prog, hgr):
        self.prog = prog
        self.hgr = hgr
        self.screen = prog.load("screen")
        self.palette = prog.load("palette")
        self.name = "HGR" if hgr else "DHGR"
        self.cls = self.screen.HGRBitmap if hgr else self.screen.DHGRBitmap

    def bitmap(self, main, aux=None, pal=None):
        p = pal or self.palette.Palette.NTSC
        if self.hgr:
            return self.cls(palette=p, main_memory=main)
        return self.cls(palette=p, main_memory=main, aux_memory=aux)

    def fresh(self, tag):
        main = mem(self.screen, tag + "_main")
        aux = None if self.hgr else mem(self.screen, tag + "_aux")
        return self.bitmap(main, aux)

    def banks(self):
        return [False] if self.hgr else [False, True]


# ------------------------------------------------------------------------------------------ hardware dots
def dhgr_dot(main, aux, page, k):
    """Dot k (0..1791 within a 256-byte page pair) of the DHGR display: bits of aux0, main0, aux1, main1, ...
    main/aux: function (page, offset) -> byte; offsets outside 0..255 count as blank."""
    col, bit = k // 7, k % 7
    o = col // 2
    if o < 0 or o > 255:
        return 0
    b = (aux if col % 2 == 0 else main)(page, o)
    return (b >> bit) & 1


def python_trust(chk, numpy=True):
    chk.trust("pyvc: the symbolic interpreter of the instrumented Python source and its liveness/havoc inference")
    chk.trust("z3 4.15 (cvc5 for obligations z3 leaves open)")
    if numpy:
        chk.trust("pyvc/nparr.py: contracts of the numpy 1.22 operations the code uses (wrap-around integer "
                  "arithmetic and promotion as in numpy)")
    chk.assume("Python integers are mathematical; numpy integers wrap at their width")


# ------------------------------------------------------------------------------------------ distance tables
class Table(object):
    """Arbitrary symmetric distance table with zero diagonal (the contract proved for the real tables by C10):
    D(palette, byte offset, window, window)."""

    def __init__(self, m):
        self.m = m
        self.mb = int(m.cls.MASKED_BITS)
        self.nb = len(m.cls.BYTE_MASKS)
        self.F = {}

    def d(self, pal, bo, a, b):
        """Distance of windows a and b (integers below 2**mb)."""
        k = (pal, bo)
        f = self.F.get(k)
        if f is None:
            f = self.F[k] = z3.Function("D_%s_%s_%s" % (self.m.name, pal, bo), z3.BitVecSort(self.mb),
                                        z3.BitVecSort(self.mb), z3.BitVecSort(16))
        a, b = V.as_int(a), V.as_int(b)
        at = z3.Extract(self.mb - 1, 0, V.bvterm(a, max(self.mb + 1, V.width(V.lo(a), V.hi(a)))))
        bt = z3.Extract(self.mb - 1, 0, V.bvterm(b, max(self.mb + 1, V.width(V.lo(b), V.hi(b)))))
        at, bt = z3.simplify(at), z3.simplify(bt)
        lt = z3.ULE(at, bt)
        t = z3.If(at == bt, z3.BitVecVal(0, 16), f(z3.If(lt, at, bt), z3.If(lt, bt, at)))
        return V.from_ubv(z3.simplify(t))

    def arr(self, pal):
        n = 1 << (2 * self.mb)

        def f(o, pair):
            pair = V.as_int(pair)
            old, new = pair >> self.mb, pair & ((1 << self.mb) - 1)
            if isinstance(o, int):
                return self.d(pal, o, old, new)
            r = self.d(pal, self.nb - 1, old, new)
            for i in range(self.nb - 1):
                r = V.ite(V.eq(o, i), self.d(pal, i, old, new), r)
            return r
        return N.NArr.lazy((self.nb, n), "uint16", f)

    def install(self):
        cache = {}

        def edit_distances(cls, palette_id):
            k = palette_id.name
            if k not in cache:
                cache[k] = self.arr(k)
            return cache[k]
        self.m.screen.Bitmap.edit_distances = classmethod(edit_distances)
        return self


def byte_at(get, page, off):
    """Byte of a 256-byte page, blank beyond its ends."""
    inside = V.land(off >= 0, off < 256)
    return V.ite(inside, V.as_int(N.raw(get(page, V.ite(inside, off, 0)))), 0)


def window_spec(m, main, aux, page, off, is_aux, content=None):
    """Window value (index into the distance tables) of a byte position: written from the documented layout, with
    the byte itself optionally replaced by content.  main/aux: (page, offset) -> byte."""
    own = V.as_int(N.raw((aux if is_aux else main)(page, off))) if content is None else V.as_int(content)
    if m.hgr:
        prev, nxt = byte_at(main, page, off - 1), byte_at(main, page, off + 1)
        lo3 = ((prev >> 5) & 3) | ((prev >> 7) << 2)
        even = V.eq(off % 2, 0)
        w0 = lo3 | (own << 3) | ((nxt >> 7) << 11) | ((nxt & 3) << 12)
        w1 = lo3 | ((own >> 7) << 3) | ((own & 0x7f) << 4) | ((nxt >> 7) << 11) | ((nxt & 3) << 12)
        return V.ite(even, w0, w1)
    if is_aux:
        prev, nxt = byte_at(main, page, off - 1), byte_at(main, page, off)
    else:
        prev, nxt = byte_at(aux, page, off), byte_at(aux, page, off + 1)
    return ((prev >> 4) & 7) | ((own & 0x7f) << 3) | ((nxt & 7) << 10)


def bo_spec(m, off, is_aux):
    """Byte offset within the packed representation, as the tables are numbered (see BYTE_MASKS)."""
    odd = off % 2
    if m.hgr:
        return odd
    return 2 * odd + (0 if is_aux else 1)


def dist_at(m, tab, pal, off, is_aux, a, b):
    """Tabulated distance of two windows at a byte position."""
    odd = V.eq(off % 2, 1)
    e, o = bo_spec(m, 0, is_aux), bo_spec(m, 1, is_aux)
    return V.ite(odd, tab.d(pal, o, a, b), tab.d(pal, e, a, b))


def models(fails):
    """Counterexamples of the failed obligations, for the replay on the real code."""
    import json
    out = []
    for o in fails:
        if " JSON:" in o["detail"]:
            try:
                out.append(dict(obligation=o["name"], **json.loads(o["detail"].split(" JSON:")[1])))
            except ValueError:
                pass
    return json.dumps(out[:24])


def replay(script, *args, timeout=400):
    return lambda chk, f: run_replay(script, list(args), timeout=timeout, stdin=models(f))
