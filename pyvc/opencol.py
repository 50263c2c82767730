"""Containers with any number of further, unknown members.

Besides its definite members a container holds representatives: each stands for any number (also none) of members of the
same shape, at unknown positions among the others.  Reading a representative gives a fresh instance: new names, new
numbers.  Every container made by the same expression of the source holds the same representatives, so generic members
never change the state a loop is compared by; a new shape of member is noted and the exploration starts again with it."""
from . import values as V
from . import engine as EN
from . import tstr as T
from . import instrument as I
from .values import Sym, Unsupported


class Open(object):
    """What is known about the containers of one exploration: representatives per creation site, the tracked names."""

    def __init__(self, names, enum=None, sites=None):
        self.names, self.enum, self.dirty = tuple(names), enum, False
        self.sites = sites if sites is not None else {}


class Rep(object):
    """Representative member; names: the tracked names it was made under."""

    def __init__(self, x, names):
        self.x, self.names = x, names

    def fresh(self):
        now = V.ENG.open.names
        return instance(self.x, {}, dict(zip(self.names, now)) if self.names != now else {})


class Other(object):
    """Any member of an enumeration except the tracked one."""

    def __init__(self, enum, atom=None):
        self.enum = enum
        self.atom = atom or T.Atom("member", no="/., =\"\n", nonempty=True, free=True, notin=(enum.c.name,),
                                   oneway=True)

    @property
    def name(self):
        return T.TStr(self.atom)

    @property
    def value(self):
        raise Unsupported("value of an unknown member")

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Other) or isinstance(o, EN.enum.Enum) and o is not self.enum.c:
            return V.ENG.fresh_bool("same_member")
        return False

    def __ne__(self, o):
        return V.neg(self == o)

    def __hash__(self):
        raise Unsupported("hash of an unknown member")

    def __repr__(self):
        return "<other member>"

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "other"))


class AnyClass(object):
    """The class of some command other than the tracked one."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("attribute %s of an unknown class" % k)

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "anyclass"))


def unknown(x):
    return isinstance(x, (T.TStr, Other, V.FmtStr)) or isinstance(x, tuple) and any(unknown(y) for y in x)


def member_key(k):
    """Is k (derived from) a member other than the tracked one?"""
    if isinstance(k, Other) or isinstance(k, EN.enum.Enum):
        return True
    return isinstance(k, T.TStr) and any(isinstance(p, T.Atom) and p.name.startswith("member") for p in k.parts)


def generic(x):
    """Does the value depend on a member of unknown identity?"""
    if isinstance(x, (T.TStr, Other, AnyClass)):
        return True
    if isinstance(x, (tuple, list)):
        return any(generic(y) for y in (list.__iter__(x) if isinstance(x, list) else x)) or hasrest(x)
    if isinstance(x, dict):
        return any(generic(k) or generic(v) for k, v in dict.items(x)) or hasrest(x)
    return False


def hasrest(x):
    return isinstance(x, (ODict, OList)) and bool(x.reps())


def shape(x, num=None):
    num = {} if num is None else num
    if isinstance(x, T.TStr):
        return "t:" + "".join(p if isinstance(p, str) else "%r#%d" % (p, num.setdefault(id(p), len(num)))
                              for p in x.parts)
    if isinstance(x, Other):
        return "other#%d" % num.setdefault(id(x.atom), len(num))
    if isinstance(x, AnyClass):
        return "anyclass"
    if isinstance(x, Sym):
        return type(x).__name__
    if isinstance(x, ODict):
        return "{%s|%s%s}" % (",".join("%r:%s" % (k, shape(v, num)) for k, v in sorted(dict.items(x), key=repr)),
                              site(x.site), "".join(sorted(shape(r.x) for r in x.extra)))
    if isinstance(x, OList):
        return "[%s|%s%s]" % (",".join(shape(y, num) for y in list.__iter__(x)), site(x.site),
                              "".join(sorted(shape(r.x) for r in x.extra)))
    if isinstance(x, tuple):
        return "(%s)" % ",".join(shape(y, num) for y in x)
    if x is None or isinstance(x, (bool, int, float, str, bytes, EN.enum.Enum, type)):
        return repr(x)
    raise Unsupported("unknown member of type %s" % type(x).__name__)


def site(s):
    return "%s:%s" % (s[0].split("/")[-1], s[1]) if s else ""


def instance(x, ren, names):
    e = V.ENG
    if isinstance(x, T.TStr):
        out = []
        for p in x.parts:
            if isinstance(p, str):
                out.append(p)
                continue
            if id(p) not in ren:
                ren[id(p)] = p.renew(e.fresh_int("number")) if isinstance(p, T.Num) else p.renew(
                    notin=tuple(names.get(n, n) for n in p.notin))
            out.append(ren[id(p)])
        return T.plain(T.TStr(*out))
    if isinstance(x, Other):
        if id(x.atom) not in ren:
            ren[id(x.atom)] = x.atom.renew(notin=tuple(names.get(n, n) for n in x.atom.notin))
        return Other(e.open.enum, ren[id(x.atom)])
    if isinstance(x, V.SymInt):
        return e.fresh_int("number", x.lo, x.hi)
    if isinstance(x, Sym):
        raise Unsupported("unknown member with a %s" % type(x).__name__)
    if isinstance(x, ODict):
        d = ODict(x.site)
        for k, v in dict.items(x):
            dict.__setitem__(d, k, instance(v, ren, names))
        d.extra = list(x.extra)
        return d
    if isinstance(x, OList):
        r = OList(x.site)
        for y in list.__iter__(x):
            list.append(r, instance(y, ren, names))
        r.extra = list(x.extra)
        return r
    if isinstance(x, tuple):
        return tuple(instance(y, ren, names) for y in x)
    return x


def snap(x):
    """Copy that outlives the path."""
    if isinstance(x, ODict):
        d = ODict(x.site)
        for k, v in dict.items(x):
            dict.__setitem__(d, k, snap(v))
        d.extra = list(x.extra)
        return d
    if isinstance(x, OList):
        r = OList(x.site)
        for y in list.__iter__(x):
            list.append(r, snap(y))
        r.extra = list(x.extra)
        return r
    if isinstance(x, tuple):
        return tuple(snap(y) for y in x)
    return x


def settle(x):
    if isinstance(x, (ODict, OList)):
        x.commit()
    if isinstance(x, (tuple, ODict, OList)):
        for y in dict.values(x) if isinstance(x, dict) else list.__iter__(x) if isinstance(x, list) else x:
            settle(y)


def freeze(x):
    if isinstance(x, (ODict, OList)):
        x.frozen = True
        for y in (dict.values(x) if isinstance(x, dict) else list.__iter__(x)):
            freeze(y)
    elif isinstance(x, tuple):
        for y in x:
            freeze(y)


def mutable(x):
    return isinstance(x, (ODict, OList)) or isinstance(x, tuple) and any(mutable(y) for y in x)


def straight(f):
    """f() without decisions: the result has the same shape for every member."""
    e = V.ENG
    n = len(e.taken)
    r = f()
    if len(e.taken) != n:
        raise Unsupported("member-dependent decision in an expression over unknown members")
    return r


def some(f):
    """f() for a member that may not exist: what it raises is raised if there is one."""
    try:
        return f()
    except Exception as x:
        if isinstance(x, Unsupported) or bool(V.ENG.fresh_bool("some_member")):
            raise
        return ()


class View(object):
    """Iteration over definite members and representatives."""

    def __init__(self, definite, reps):
        self.definite, self.reps = list(definite), list(reps)

    def symiter(self):
        return ViewIter(self)

    def __iter__(self):
        raise Unsupported("native iteration over a container with unknown members")

    def __symlen__(self):
        raise Unsupported("length of a container with unknown members")

    def __len__(self):
        raise Unsupported("length of a container with unknown members")

    def symlist(self):
        r = OList()
        list.extend(r, self.definite)
        r.extra = list(self.reps)
        return r

    def symmap(self, f, conds=()):
        r = OList()
        for x in self.definite:
            if all(bool(c(x)) for c in conds):
                list.append(r, f(x))
        seen = set()
        for x in self.reps:
            y = x.fresh()
            freeze(y)

            def image():
                if not all(bool(c(y)) for c in conds):
                    return ()
                return (straight(lambda: f(y)),)
            for z in some(image):
                if shape(z) not in seen:
                    seen.add(shape(z))
                    freeze(z)
                    r.extra.append(Rep(snap(z), V.ENG.open.names))
        return r

    symfilter = True

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "view", len(self.definite), tuple(sorted({shape(r.x) for r in self.reps}))))
        for i, x in enumerate(self.definite):
            node(path + (i,), x, None)


class ViewIter(object):
    def __init__(self, view):
        self.view, self.k = view, 0

    def symiter(self):
        return self

    def advance(self, act):
        e = V.ENG
        e.symdec += 1
        v = self.view
        c = e.choose(len(v.reps) + 1, "member")
        if c < len(v.reps):
            act.value = v.reps[c].fresh()
            freeze(act.value)
            return True
        if self.k == len(v.definite):
            return False
        act.value = v.definite[self.k]
        self.k += 1
        return True

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "viewiter", self.k))
        node(path + ("v",), self.view, None)


class OpenMixin(object):
    """Representatives of a container: those of its creation site, those it was made with, those just put in."""

    def setup(self, site):
        self.site, self.extra, self.pending, self.frozen = site, [], [], False

    def reps(self):
        self.commit()
        e = V.ENG
        mine = e.open.sites.get(self.site, []) if self.site and e is not None and e.open else []
        return list(mine) + self.extra

    def commit(self):
        if not self.pending:
            return
        e = V.ENG
        todo, self.pending = self.pending, []
        for x in todo:
            settle(x)
            s = shape(x)
            freeze(x)
            if self.site:
                have = e.open.sites.setdefault(self.site, [])
                if not any(shape(r.x) == s for r in have):
                    have.append(Rep(snap(x), e.open.names))
                    e.open.dirty = True
            elif not any(shape(r.x) == s for r in self.extra):
                self.extra.append(Rep(snap(x), e.open.names))
        if e.open.dirty and self.site:
            raise EN.PathClosed()

    def touch(self):
        if self.frozen:
            raise Unsupported("change of an unknown member")

    def put(self, x):
        self.touch()
        e = V.ENG
        old, oldx = list(self.pending), list(self.extra)

        def undo():
            self.pending, self.extra = old, oldx
        e.log(undo)
        self.pending.append(x)

    def no(self, what):
        if self.reps():
            raise Unsupported(what + " of a container with unknown members")
        self.touch()


class ODict(OpenMixin, I.RDict):
    def __init__(self, site=None):
        dict.__init__(self)
        self.setup(site)

    def _log(self):
        self.touch()
        super()._log()

    def among(self, k):
        """The definite key that equals k, if any."""
        cls = isinstance(k, Other)
        for x in list(dict.keys(self)):
            if cls and isinstance(x, EN.enum.Enum) and x is not k.enum.c:
                raise Unsupported("key of an unknown member")
            r = V.eq(x, k) if isinstance(x, Sym) else k == x
            if r is not False and bool(r):
                return (x,)
        return None

    def lookup(self, k, sure=False):
        """A member of the rest with this key: (value,) or None."""
        found = []
        for r in self.reps():
            a = r.fresh()
            q = a[0] == k if unknown(a[0]) else k == a[0]
            if q is not False:
                found.append(a)
        # a container that lacks an entry for another member is the business of the run that tracks that member
        sure = sure or isinstance(k, EN.enum.Enum) and k is not V.ENG.open.enum.c
        if not found or not sure and not bool(V.ENG.fresh_bool("key_present")):
            return None
        a = found[V.ENG.choose(len(found), "member")]
        if mutable(a[1]):
            self.put(a)
        return (a[1],)

    def __setitem__(self, k, v):
        k = T.plain(k)
        if not unknown(k):
            return self.setone(k, v)
        f = self.among(k)
        if f is not None:
            return self.setone(f[0], v)
        self.put((k, v))

    def setone(self, k, v):
        k = self._key(k)
        if self._sym(k):
            raise Unsupported("number as a key of a dictionary with unknown keys")
        self.touch()
        e = V.ENG
        if id(self) in e.globals_roots:
            e.mutated_globals[id(self)] = self
        old = dict.get(self, k, EN.UNBOUND)
        e.log(lambda: dict.pop(self, k, None) if old is EN.UNBOUND else dict.__setitem__(self, k, old))
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        k = T.plain(k)
        if not unknown(k):
            if dict.__contains__(self, k) or not self.reps():
                return super().__getitem__(k)
        else:
            if isinstance(k, Other) and not self.reps() and all(
                    isinstance(v, type) and isinstance(x, EN.enum.Enum) for x, v in dict.items(self)):
                return AnyClass()
            f = self.among(k)
            if f is not None:
                return dict.__getitem__(self, f[0])
        r = self.lookup(k, member_key(k) and k is not V.ENG.open.enum.c)
        if r is None:
            raise KeyError(k)
        return r[0]

    def __contains__(self, k):
        k = T.plain(k)
        if not unknown(k):
            if dict.__contains__(self, k):
                return True
            if not self.reps():
                return super().__contains__(k)
        elif self.among(k) is not None:
            return True
        return self.lookup(k) is not None

    def get(self, k, d=None):
        k = T.plain(k)
        if not unknown(k) and (dict.__contains__(self, k) or not self.reps()):
            return super().get(k, d)
        if unknown(k):
            f = self.among(k)
            if f is not None:
                return dict.__getitem__(self, f[0])
        r = self.lookup(k)
        return d if r is None else r[0]

    def setdefault(self, k, d=None):
        k = T.plain(k)
        if not unknown(k) and dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        if unknown(k):
            f = self.among(k)
            if f is not None:
                return dict.__getitem__(self, f[0])
        r = self.lookup(k)
        if r is not None:
            return r[0]
        self[k] = d
        return d

    def pop(self, k, *a):
        k = T.plain(k)
        if unknown(k):
            raise Unsupported("removal of an unknown key")
        self.no("pop")
        return super().pop(k, *a)

    def __delitem__(self, k):
        if unknown(k):
            raise Unsupported("removal of an unknown key")
        self.no("removal")
        super().__delitem__(k)

    def clear(self):
        self.no("clear")
        super().clear()

    def popitem(self):
        raise Unsupported("popitem")

    def copy(self):
        d = ODict()
        dict.update(d, self)
        d.extra = self.reps()
        return d

    def items(self):
        r = self.reps()
        return View(dict.items(self), r) if r else dict.items(self)

    def keys(self):
        r = self.reps()
        return View(dict.keys(self), [Rep(x.x[0], x.names) for x in r]) if r else dict.keys(self)

    def values(self):
        r = self.reps()
        return View(dict.values(self), [Rep(x.x[1], x.names) for x in r]) if r else dict.values(self)

    @property
    def symiter(self):
        if not self.reps():
            raise AttributeError("symiter")
        return self.keys().symiter

    @property
    def symmap(self):
        if not self.reps():
            raise AttributeError("symmap")
        return self.keys().symmap

    @property
    def symlist(self):
        if not self.reps():
            raise AttributeError("symlist")
        return self.keys().symlist

    symfilter = True

    def __iter__(self):
        if self.reps():
            raise Unsupported("native iteration over a dictionary with unknown keys")
        return dict.__iter__(self)

    def __len__(self):
        if self.reps():
            raise Unsupported("size of a dictionary with unknown keys")
        return dict.__len__(self)

    def __bool__(self):
        if dict.__len__(self):
            return True
        return bool(V.ENG.fresh_bool("nonempty")) if self.reps() else False

    def __eq__(self, o):
        if self.reps() or hasrest(o):
            raise Unsupported("comparison of dictionaries with unknown keys")
        return dict.__eq__(self, o)

    __hash__ = None

    def addpairs(self, o):
        if isinstance(o, OpenMixin) or isinstance(o, View):
            definite = dict.items(o) if isinstance(o, dict) else list.__iter__(o) if isinstance(o, list) else o.definite
            for k, v in definite:
                self[k] = v
            for r in (o.reps if isinstance(o, View) else o.reps()):
                k, v = r.fresh()
                if self.among(k) is not None and not bool(V.ENG.fresh_bool("some_member")):
                    continue
                self[k] = v
                self.put(r.fresh())
            return
        if not isinstance(o, dict) and hasattr(o, "symlist"):
            return self.addpairs(o.symlist())
        for k, v in (o.items() if isinstance(o, dict) else o):
            self[k] = v

    def update(self, o=(), **kw):
        self.touch()
        self.addpairs(o)
        for k, v in kw.items():
            self[k] = v

    def __walk__(self, path, slots, sig, node):
        self.commit()
        ks = list(dict.keys(self))
        sig.append((path, "odict", tuple(repr(k) for k in ks), tuple(sorted({shape(r.x) for r in self.extra}))))
        for k in ks:
            node(path + (repr(k),), dict.__getitem__(self, k), (lambda val, k=k: dict.__setitem__(self, k, val)))


def refuse(name):
    native = getattr(I.RList, name)

    def f(self, *a, **kw):
        self.no(name)
        return native(self, *a, **kw)
    return f


class OList(OpenMixin, I.RList):
    def __init__(self, site=None):
        list.__init__(self)
        self.setup(site)

    def _log(self):
        self.touch()
        super()._log()

    def append(self, x):
        if generic(x):
            self.put(x)
        else:
            super().append(x)

    def extend(self, xs):
        if isinstance(xs, ODict):
            xs = xs.keys()
        if isinstance(xs, OList):
            for x in list.__iter__(xs):
                self.append(x)
            for r in xs.reps():
                self.put(r.fresh())
        elif isinstance(xs, View):
            self.extend(xs.symlist())
        else:
            for x in xs:
                self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        r = OList()
        r.extend(self)
        r.extend(o)
        return r

    def copy(self):
        return self.view().symlist()

    def view(self):
        return View(list.__iter__(self), self.reps())

    @property
    def symiter(self):
        if not self.reps():
            raise AttributeError("symiter")
        return self.view().symiter

    @property
    def symmap(self):
        if not self.reps():
            raise AttributeError("symmap")
        return self.view().symmap

    @property
    def symlist(self):
        if not self.reps():
            raise AttributeError("symlist")
        return self.view().symlist

    symfilter = True

    def symsorted(self, key, reverse):
        """Sorting orders the members; which order that is stays unknown."""
        if key is not None:
            for x in list.__iter__(self):
                key(x)
            for r in self.reps():
                some(lambda: (key(r.fresh()),))
        return self.view().symlist()

    def sort(self, key=None, reverse=False):
        if self.reps():
            self.symsorted(key, reverse)
            return
        super().sort(key=key, reverse=reverse)

    def __iter__(self):
        if self.reps():
            raise Unsupported("native iteration over a list with unknown members")
        return super().__iter__()

    def __getitem__(self, i):
        if self.reps():
            raise Unsupported("element of a list with unknown members")
        return super().__getitem__(i)

    def __len__(self):
        if self.reps():
            raise Unsupported("length of a list with unknown members")
        return super().__len__()

    def __contains__(self, x):
        if self.reps():
            raise Unsupported("membership in a list with unknown members")
        return any(bool(V.eq(y, x)) for y in list.__iter__(self))

    def __bool__(self):
        if list.__len__(self):
            return True
        return bool(V.ENG.fresh_bool("nonempty")) if self.reps() else False

    def __eq__(self, o):
        if self.reps() or hasrest(o):
            raise Unsupported("comparison of lists with unknown members")
        return list.__eq__(self, o)

    __hash__ = None

    def __walk__(self, path, slots, sig, node):
        self.commit()
        sig.append((path, "olist", list.__len__(self), tuple(sorted({shape(r.x) for r in self.extra}))))
        for i, x in enumerate(list.__iter__(self)):
            node(path + (i,), x, (lambda val, i=i: list.__setitem__(self, i, val)))


for _n in ("pop", "remove", "insert", "reverse", "clear", "__setitem__", "__delitem__", "index", "count"):
    setattr(OList, _n, refuse(_n))


class TrackedEnum(object):
    """An enumeration of which one member is looked at."""

    def __init__(self, enum, c):
        self.__dict__.update(enum=enum, c=c)

    def view(self):
        return View([self.c], [Rep(Other(self), V.ENG.open.names)])

    def symiter(self):
        return self.view().symiter()

    def symmap(self, *a):
        return self.view().symmap(*a)

    def symlist(self):
        return self.view().symlist()

    symfilter = True

    def __iter__(self):
        raise Unsupported("native iteration over an enumeration")

    def __len__(self):
        return len(self.enum)

    def __contains__(self, x):
        return isinstance(x, Other) or x in self.enum

    def find(self, k):
        k = T.plain(k)
        if not unknown(k):
            return self.enum[k]
        if bool(k == self.c.name):
            return self.c
        if not bool(V.ENG.fresh_bool("is_member")):
            raise KeyError(k)
        return Other(self)

    def __getitem__(self, k):
        return self.find(k)

    def __call__(self, *a):
        raise Unsupported("call of an enumeration")

    @property
    def __members__(self):
        d = ODict()
        dict.__setitem__(d, self.c.name, self.c)
        o = Other(self)
        d.extra.append(Rep((o.name, o), V.ENG.open.names))
        return d

    def __getattr__(self, k):
        return getattr(self.enum, k)

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "enum"))
