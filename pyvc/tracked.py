"""Maps over large key spaces (addresses), followed at a few arbitrary ("tracked") keys.

The tracked keys are symbolic, so what is proved of them holds for every key.  Values under other keys are unknown:
reading one gives an object whose contents are unknown, writing one has no effect on the tracked ones.  A loop over a
range of addresses visits, in order, any number of untracked addresses, then the smallest tracked address in the range,
and so on; this is what a strictly increasing range does, and lets the loop close without an invariant."""
import types
from . import values as V, engine as EN, instrument as I
from .values import Unsupported

UNBOUND = EN.UNBOUND


def tracked():
    t = getattr(V.ENG, "tracked", None)
    if t is None:
        raise Unsupported("map over addresses without tracked keys")
    return t


class Scratch(object):
    """Value under an unknown key: a list with unknown contents."""

    def __init__(self, base):
        self.base = base

    def append(self, x):
        if isinstance(self.base, list):
            self.base.append(x)

    def extend(self, x):
        for y in x:
            self.append(y)

    def __iadd__(self, x):
        self.extend(x)
        return self

    def insert(self, i, x):
        self.append(x)

    def __contains__(self, x):
        return bool(V.ENG.fresh_bool("contains"))

    def __iter__(self):
        raise Unsupported("iteration over the value of an untracked key")


class TMap(object):
    def __init__(self, factory=None, absent=True):
        self.factory = factory
        self.at = list(tracked())       # the tracked keys in force when the map was made
        self.slots = [UNBOUND for _ in self.at]
        self.owner = V.ENG

    def slot(self, k):
        k = V.as_int(k)
        if isinstance(k, (str, tuple)):
            raise Unsupported("key of another kind")
        for i, t in enumerate(self.at):
            r = V.eq(k, t)
            if r is True or (r is not False and bool(r)):
                return i
        return None

    def put(self, i, v):
        old = self.slots[i]
        self.slots[i] = v
        V.ENG.log(lambda: self.slots.__setitem__(i, old))

    def __setitem__(self, k, v):
        i = self.slot(k)
        if i is not None:
            self.put(i, v)

    def __getitem__(self, k):
        i = self.slot(k)
        if i is None:
            return self.other()
        if self.slots[i] is UNBOUND:
            if self.factory is None:
                raise KeyError(k)
            self.put(i, self.factory())
        return self.slots[i]

    def other(self):
        v = self.factory() if self.factory else None
        return Scratch(v) if v is None or isinstance(v, list) else v

    def setdefault(self, k, d=None):
        i = self.slot(k)
        if i is None:
            return Scratch(d)
        if self.slots[i] is UNBOUND:
            self.put(i, d)
        return self.slots[i]

    def get(self, k, d=None):
        i = self.slot(k)
        if i is None:
            return d if bool(V.ENG.fresh_bool("absent")) else Scratch(None)
        return d if self.slots[i] is UNBOUND else self.slots[i]

    def __contains__(self, k):
        i = self.slot(k)
        if i is None:
            return bool(V.ENG.fresh_bool("present"))
        return self.slots[i] is not UNBOUND

    def update(self, *a, **kw):
        for x in a:
            for k, v in x.items():
                self[k] = v

    def pop(self, k, *d):
        i = self.slot(k)
        if i is None:
            return Scratch(None)
        v = self.slots[i]
        if v is UNBOUND:
            if d:
                return d[0]
            raise KeyError(k)
        self.put(i, UNBOUND)
        return v

    def __delitem__(self, k):
        self.pop(k)

    def __iter__(self):
        raise Unsupported("iteration over a map of addresses")

    def items(self):
        raise Unsupported("iteration over a map of addresses")

    keys = values = items

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "tmap"))
        for i, v in enumerate(self.slots):
            node(path + (i,), v, (lambda x, i=i: self.put(i, x)))


class TArray(object):
    """Contents of a memory: arbitrary initial bytes and the stores made since."""

    def __init__(self, name, lo=0, hi=255):
        self.name, self.lo, self.hi = name, lo, hi
        t = self.at = list(tracked())
        self.base = [V.ENG.fresh_int("%s_t%d" % (name, i), lo, hi) for i, _ in enumerate(t)]
        # equal tracked addresses hold the same byte
        for i in range(len(t)):
            for j in range(i):
                V.ENG.assume(V.boolterm(V.implies(V.eq(t[i], t[j]), V.eq(self.base[i], self.base[j]))))
        self.slots = list(self.base)
        self.others = 0         # stores to untracked addresses

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a memory")
        for i, t in enumerate(self.at):
            if bool(V.eq(V.as_int(k), t)):
                return self.slots[i]
        return V.ENG.fresh_int(self.name + "_other", self.lo, self.hi)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            raise Unsupported("slice of a memory")
        hit = False
        for i, t in enumerate(self.at):
            if bool(V.eq(V.as_int(k), t)):
                old = self.slots[i]
                self.slots[i] = v
                V.ENG.log(lambda i=i, old=old: self.slots.__setitem__(i, old))
                hit = True
        if not hit:
            V.ENG.log_attr(self, "others")
            self.others += 1

    def __len__(self):
        return 65536

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "tarray", self.others))
        for i, v in enumerate(self.slots):
            node(path + (i,), v, (lambda x, i=i: self.slots.__setitem__(i, x)))


class TRange(I.SymRange):
    def symiter(self):
        if self.step != 1:
            raise Unsupported("range over addresses with a step")
        return TIter(self.start, self.stop)

    def __contains__(self, x):
        return bool(V.land(x >= self.start, x < self.stop))


class TIter(object):
    def __init__(self, start, stop):
        e = V.ENG
        pts = []
        for t in tracked():
            if not bool(V.land(t >= start, t < stop)):
                continue
            k = 0
            dup = False
            while k < len(pts):
                if bool(V.eq(pts[k], t)):
                    dup = True
                    break
                if bool(t < pts[k]):
                    break
                k += 1
            if not dup:
                pts.insert(k, t)
        self.start, self.stop, self.pts, self.pos = start, stop, pts, 0

    def advance(self, act):
        e = V.ENG
        e.symdec += 1
        while True:
            i, gap = divmod(self.pos, 2)
            if gap == 0:
                lo = self.pts[i - 1] + 1 if i else self.start
                hi = self.pts[i] if i < len(self.pts) else self.stop
                if getattr(e, "gaps", True) and e.feasible(V.boolterm(lo < hi)) and bool(e.fresh_bool("other")):
                    v = e.fresh_int("addr", 0, 0xffff, bv=True)
                    e.assume(V.boolterm(V.land(v >= lo, v < hi)))
                    act.value = v
                    return True
                if i >= len(self.pts):
                    return False
                self.pos += 1
                act.value = self.pts[i]
                continue
            act.value = self.pts[i]
            self.pos += 1
            return True

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "titer", self.pos))


def t_range(*a):
    """range(): large or symbolic ranges are ranges over addresses."""
    e = V.ENG
    a = [V.as_int(x) for x in a]
    if e is None or not e.active or getattr(e, "tracked", None) is None:
        return I.s_range(*a)
    if any(isinstance(x, V.Sym) for x in a) or len(range(*a)) > 8:
        return TRange(*a)
    return range(*a)


def collections_stub():
    def defaultdict(factory=None, *a, **kw):
        if a or kw:
            raise Unsupported("defaultdict with initial contents")
        return TMap(factory)
    m = types.ModuleType("collections")
    import collections
    m.defaultdict = defaultdict
    m.OrderedDict = collections.OrderedDict
    m.namedtuple = collections.namedtuple
    return m
