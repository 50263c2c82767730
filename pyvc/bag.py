"""Lists of unknown length and priority queues over them (heapq / sorted), with tracked elements."""
import os
import sys
import types
import heapq as real_heapq
import z3
from . import values as V
from . import engine as EN
from .values import SymInt, SymBool, Sym, Unsupported
from . import nparr
from .nparr import NpScalar
from .instrument import RList, lt, SymRange, merge

HERE = os.path.dirname(os.path.abspath(__file__))


class SymList(object):
    """[f(0), ..., f(n-1)] with unknown n; after heapify a priority queue (multiset with ordered removal).

    dom: the mask enumeration the elements come from (positions where a mask holds), if known."""

    def __init__(self, n, f, dom=None):
        self.n, self.f, self.dom = n, f, dom
        self.heap = False
        self.pushed = []          # values pushed since the last generalisation
        self.abs = None           # template of values pushed before it
        self.last = None          # lower bound of everything still inside
        self.nonempty = None      # decided emptiness, until the next change
        self.tracks = []
        self.popped = 0
        self.site = None          # where it was made a queue: queues made there share the template of pushed values

    # ---- sequence view
    def symmap(self, g):
        if self.heap or self.pushed:
            raise Unsupported("comprehension over a changed list of unknown length")
        f = self.f
        return SymList(self.n, lambda k: g(f(k)), self.dom)

    def symlist(self):
        return SymList(self.n, self.f, self.dom)

    def __symlen__(self):
        if self.heap:
            raise Unsupported("length of a priority queue of unknown size")
        return self.n

    def symiter(self):
        return ListIter(self, 0)

    def __iter__(self):
        raise Unsupported("native iteration over a list of unknown length")

    def __getitem__(self, i):
        if self.heap:
            if isinstance(i, int) and i == 0:
                raise Unsupported("peeking at a queue of unknown size")
            raise Unsupported("indexing a queue of unknown size")
        i = V.as_int(i)
        if not bool(V.land(i >= 0, i < self.n)):
            raise IndexError("list index out of range")
        return self.f(i)

    def append(self, x):
        raise Unsupported("append to a list of unknown length")

    # ---- queue
    def heapify(self):
        e = V.ENG
        e.log(self.snap())
        self.heap = True
        f = sys._getframe(1)
        while f is not None and os.path.dirname(f.f_code.co_filename) == HERE:
            f = f.f_back
        self.site = (f.f_code.co_filename, f.f_lineno) if f else None
        self.tracks = []
        for tr in getattr(e, "tracks", []):
            if self.dom is not None and self.dom.mask.shape == tr.shape and tr.want(self):
                k = e.fresh_int("trk", 0, max(nparr.prod(tr.shape) - 1, 0), bv=True)
                probe = e.fresh_int("probe", 0, max(nparr.prod(tr.shape) - 1, 0), bv=True)
                e.probing = True
                try:
                    val = self.f(probe)
                finally:
                    e.probing = False
                cell = self.dom.idx(probe)
                pos = []
                for c in cell:
                    ps = [j for j, x in enumerate(val) if isinstance(V.as_int(x), SymInt) and V.as_int(x).t.eq(
                        V.as_int(c).t)] if isinstance(val, tuple) else []
                    # the numbers may sit in wider vectors: compare as integers
                    if not ps and isinstance(val, tuple):
                        ps = [j for j, x in enumerate(val) if e.entailed(V.boolterm(V.eq(V.as_int(x), c)))]
                    pos.append(ps[0] if ps else None)
                self.dom.cells.pop(nparr.ikey(probe), None)
                if None in pos:
                    continue
                present = V.mkbool(V.boolterm(self.dom.mask.at(*tr.cell)))
                t = Track(tr, pos, V.ite(present, 1, 0))
                tr.queue = self
                if tr.made is not None:
                    tr.made()
                self.tracks.append(t)
        return None

    def snap(self):
        d = dict(self.__dict__)
        d["pushed"] = list(self.pushed)
        d["tracks"] = [t.copy() for t in self.tracks]

        def undo():
            self.__dict__.clear()
            self.__dict__.update(d)
        return undo

    def __bool__(self):
        e = V.ENG
        if not self.heap and self.popped == 0 and not self.pushed:
            e.symdec += 1
            return bool(V.as_int(self.n) > 0)
        if self.pushed:
            return True
        if self.nonempty is None:
            e.symdec += 1
            r = e.branch(e.fresh_bool("nonempty").t)
            e.log(self.snap())
            self.nonempty = r
            if not r:
                for t in self.tracks:
                    e.assume(V.boolterm(V.eq(t.count, 0)))
        return self.nonempty

    def pop(self):
        e = V.ENG
        if not bool(self):
            raise IndexError("index out of range")
        e.log(self.snap())
        nsrc = 1 + (1 if self.abs is not None else 0) + len(self.pushed)
        src = e.choose(nsrc, "source")
        if src == 0:
            hi = V.hi(self.n) if V.hi(self.n) is not None else None
            k = e.fresh_int("pick", 0, hi - 1 if hi else None, bv=True if hi else None)
            e.assume(V.boolterm(k < self.n))
            v = self.f(k)
        elif src == 1 and self.abs is not None:
            v = tuple(fresh_like(x) for x in self.abs)
            for name, t in e.bag_inv(v):
                e.assume(V.boolterm(t))
        else:
            j = src - (2 if self.abs is not None else 1)
            v = self.pushed[j]
            self.pushed = self.pushed[:j] + self.pushed[j + 1:]
        for x in self.pushed:
            e.assume(V.boolterm(V.lor(lt(v, x), V.eq(v, x))))
        if self.last is not None:
            e.assume(V.boolterm(V.mkbool(V.boolterm(V.eq(V.as_int(self.last), V.as_int(v[0])))) if False else
                                V.lor(lt((self.last,), (v[0],)), V.eq(self.last, v[0]))))
        self.last = v[0]
        for t in self.tracks:
            hit = t.matches(v)
            # a tracked element is only removed while it is inside; what is still inside is not smaller
            e.assume(V.boolterm(V.implies(hit, t.count > 0)))
            t.count = V.ite(hit, t.count - 1, t.count) if not isinstance(hit, bool) else (t.count - 1 if hit else t.count)
            if t.tr.order is not None:
                e.assume(V.boolterm(V.implies(V.as_int(t.count) > 0, t.tr.order(v))))
        self.nonempty = None
        self.popped += 1
        if not e.feasible(z3.BoolVal(True)):
            raise EN.Infeasible()
        return v

    def push(self, x):
        e = V.ENG
        e.log(self.snap())
        for name, t in e.bag_inv(x):
            e.prove("pushed queue entry: %s" % name, t)
        self.pushed = self.pushed + [x]
        if self.last is not None:
            self.last = V.ite(lt((x[0],), (self.last,)), V.as_int(x[0]), V.as_int(self.last)) \
                if not isinstance(lt((x[0],), (self.last,)), bool) else (
                    x[0] if lt((x[0],), (self.last,)) else self.last)
        for t in self.tracks:
            hit = t.matches(x)
            t.count = V.ite(hit, t.count + 1, t.count) if not isinstance(hit, bool) else (t.count + 1 if hit else t.count)
        self.nonempty = None

    # ---- loop state
    def __walk__(self, path, slots, sig, node):
        sig.append((path, "symlist", self.heap))
        slots[path] = EN.Slot(self, "custom", None, self.havoc)

    def __token__(self):
        return (list(self.pushed), self.abs, self.last, self.nonempty, [t.count for t in self.tracks], self.popped)

    def __unchanged__(self, tok):
        p, a, l, ne, cs, pop = tok
        return (len(p) == len(self.pushed) and all(x is y for x, y in zip(p, self.pushed)) and a is self.abs and
                EN.same(l, self.last) and len(cs) == len(self.tracks) and pop == self.popped and
                all(EN.same(c, t.count) for c, t in zip(cs, self.tracks)))

    def havoc(self):
        e = V.ENG
        e.log(self.snap())
        shapes = e.__dict__.setdefault("bag_shapes", {})
        self.abs = shapes.get(self.site, self.abs)
        self.pushed = []
        self.nonempty = None
        if self.last is not None:
            self.last = fresh_like(self.last)
        else:
            self.last = None
        for t in self.tracks:
            t.count = e.fresh_int("cnt", 0)
        self.popped = 1

    def note_shapes(self):
        e = V.ENG
        if self.pushed:
            e.__dict__.setdefault("bag_shapes", {})[self.site] = tuple(self.pushed[0])


def fresh_like(x):
    e = V.ENG
    if isinstance(x, NpScalar):
        return x.fresh("q")
    if isinstance(x, bool) or isinstance(x, SymBool):
        return e.fresh_bool("q")
    if isinstance(x, SymInt):
        if x.lo is not None and x.hi is not None and V.kind(x) == "bv":
            w = V.width(x.lo, x.hi)
            return e.fresh_int("q", -(1 << (w - 1)) if x.lo < 0 else 0, (1 << (w - 1)) - 1, bv=True)
        return e.fresh_int("q")
    if isinstance(x, int):
        return e.fresh_int("q")
    raise Unsupported("generalising a queue entry component %r" % type(x))


class Tracker(object):
    """A fixed arbitrary cell followed through queues built from masks of the given shape."""

    def __init__(self, shape, cell, order=None, want=None):
        self.shape, self.cell, self.order = shape, cell, order
        self.want = want or (lambda q: True)
        self.queue = self.made = None


class Track(object):
    def __init__(self, tr, pos, count):
        self.tr, self.pos, self.count = tr, pos, count

    def copy(self):
        return Track(self.tr, self.pos, self.count)

    def matches(self, v):
        return V.land(*[V.eq(V.as_int(v[p]), c) for p, c in zip(self.pos, self.tr.cell)])


class ListIter(object):
    def __init__(self, lst, i):
        self.lst, self.i = lst, i

    def advance(self, act):
        V.ENG.symdec += 1
        if not bool(V.as_int(self.i) < self.lst.n):
            return False
        act.value = self.lst.f(self.i)
        self.i = self.i + 1
        return True

    def __walk__(self, path, slots, sig, node):
        slots[path + ("i",)] = EN.Slot(self.i, "leaf", lambda v: setattr(self, "i", v))


class SortedIter(object):
    def __init__(self, q):
        self.q = q

    def advance(self, act):
        if not bool(self.q):
            return False
        act.value = self.q.pop()
        return True

    def __walk__(self, path, slots, sig, node):
        node(path + ("q",), self.q, None)


class SymSorted(object):
    def __init__(self, q):
        self.q = q
        q.heapify()

    def symiter(self):
        return SortedIter(self.q)


def rows_to_list(r):
    """nparr.SymRows -> SymList."""
    return SymList(r.arr.shape[0], r.row, r.dom())


nparr.SymRows.symmap_old = nparr.SymRows.symmap


def _symmap(self, f):
    return rows_to_list(self).symmap(f)


nparr.SymRows.symmap = _symmap


def range_symmap(self, f):
    if self.step != 1 or not (isinstance(self.start, int) and self.start == 0):
        raise Unsupported("comprehension over this symbolic range")
    n = self.__symlen__() if not isinstance(self.stop, SymInt) else (
        self.stop if self.stop.lo is not None and self.stop.lo >= 0 else self.__symlen__())
    dom = None
    for d in V.ENG.__dict__.get("domains", {}).values():
        if isinstance(d[1].n, SymInt) and isinstance(n, SymInt) and d[1].n.t.eq(n.t):
            dom = d[1]
    return SymList(n, f, dom)


SymRange.symmap = range_symmap


# ------------------------------------------------------------------------------------------ heapq
def hp_concrete(h):
    from .instrument import has_sym
    return not any(has_sym(x) for x in list.__iter__(h))


def heapify(h):
    if isinstance(h, nparr.SymRows):
        raise Unsupported("heapify of raw rows")
    if isinstance(h, SymList):
        return h.heapify()
    if hp_concrete(h):
        h2 = list(h)
        real_heapq.heapify(h2)
        h[:] = h2
    return None


def heappop(h):
    if isinstance(h, SymList):
        if not h.heap:
            raise Unsupported("heappop from a list that is not a heap")
        h.note_shapes()
        return h.pop()
    if not list.__len__(h):
        raise IndexError("index out of range")
    e = V.ENG
    if hp_concrete(h):
        h2 = list(h)
        v = real_heapq.heappop(h2)
        h[:] = h2
        return v
    n = list.__len__(h)
    j = e.choose(n, "heapmin")
    v = list.__getitem__(h, j)
    for i in range(n):
        if i != j:
            x = list.__getitem__(h, i)
            e.assume(V.boolterm(V.lor(lt(v, x), V.eq(v, x))))
    if not e.feasible(z3.BoolVal(True)):
        raise EN.Infeasible()
    del h[j]
    return v


def heappush(h, x):
    if isinstance(h, SymList):
        h.push(x)
        h.note_shapes()
        return None
    h.append(x)
    if hp_concrete(h):
        h2 = list(h)
        real_heapq.heapify(h2)
        h[:] = h2


def heappushpop(h, x):
    heappush(h, x)
    return heappop(h)


def nsmallest(n, it, key=None):
    raise Unsupported("heapq.nsmallest")


def module():
    m = types.ModuleType("heapq")
    m.heapify, m.heappop, m.heappush, m.heappushpop = heapify, heappop, heappush, heappushpop
    m.nsmallest = m.nlargest = nsmallest
    return m
