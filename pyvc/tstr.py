"""Template strings: literal text interleaved with unknown parts of known character classes.

A template stands for every string obtained by replacing the unknown parts; an operation is carried out when its result
is the same template for all of them and is outside the verified subset otherwise."""
import types
from . import values as V
from . import engine as EN
from .values import Unsupported

CHARS = "./,= \t\n\"\\%-_:"     # characters whose absence from an unknown part is tracked


class Atom(object):
    """Unknown text without the characters `no`; nondot: contains a character other than a dot; dots: only dots."""

    def __init__(self, name, no="", nonempty=False, nondot=False, dots=False, free=False, notin=(), notstart=(),
                 fields=False, oneway=False):
        """free: may or may not equal any text except those in notin (decided by a fork); notstart: prefixes it does not
        have; fields: any number of "key=value," pieces with keys not in notin; oneway: all in the
        same letter case (so that changing the case keeps different texts different)."""
        self.name, self.no, self.nonempty, self.nondot, self.dots = name, no, nonempty or nondot, nondot, dots
        self.free, self.notin, self.notstart, self.fields = free, tuple(notin), tuple(notstart), fields
        self.oneway = oneway

    def renew(self, **kw):
        a = Atom(self.name)
        a.__dict__.update(self.__dict__)
        a.__dict__.pop("cased", None)
        a.__dict__.update(kw)
        return a

    def may(self, c):
        if self.dots:
            return c == "."
        return c not in self.no

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "atom", self.name))

    def __repr__(self):
        return "<%s>" % self.name


class Hex(Atom):
    """Hexadecimal digits of a number."""

    def __init__(self, v):
        Atom.__init__(self, "hex", nonempty=True)
        self.v = v

    def may(self, c):
        return c in "0123456789abcdefABCDEF"

    def renew(self, **kw):
        return Hex(V.ENG.fresh_int("hex", *((self.v.lo, self.v.hi) if isinstance(self.v, V.Sym) else (0, None))))


def plain(x):
    """A template without unknown parts as a string."""
    x = lift(x)
    if isinstance(x, TStr) and all(isinstance(p, str) for p in x.parts):
        return "".join(x.parts)
    return x


class Num(object):
    """A formatted integer: digits and possibly a sign; equal numbers give equal text and vice versa."""
    nonempty = nondot = True
    dots = False

    def __init__(self, spec, v):
        self.spec, self.v = spec, v

    def may(self, c):
        return c.isdigit() or c == "-" or c.lower() in "abcdefx" or c == " "

    def renew(self, v):
        return Num(self.spec, v)

    def __repr__(self):
        return "<%s>" % self.spec


def samepart(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return a.spec == b.spec and V.entailed(V.eq(a.v, b.v)) if hasattr(V, "entailed") else a is b
    return a is b


def lift(x):
    """A formatted number as a template."""
    if not isinstance(x, V.FmtStr):
        return x
    if x.fmt.startswith("format:"):
        return fmt_method(x.fmt[7:], x.args)
    if x.fmt.startswith("join:"):
        return join(x.fmt[5:], x.args)
    return mod(x.fmt, x.args)


class TStr(object):
    __tstr__ = True

    def __init__(self, *parts):
        out = []
        for p in parts:
            p = lift(p)
            if isinstance(p, TStr):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = out

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "tstr", repr(self), tuple(p.name for p in self.parts if isinstance(p, Atom))))
        for i, p in enumerate(self.parts):
            if isinstance(p, (Num, Hex)):
                node(path + (i,), p.v, lambda v, p=p: setattr(p, "v", v))
            elif isinstance(p, Atom):
                node(path + (i,), p, None)

    def __hash__(self):
        raise Unsupported("hash of an unknown string")

    def __add__(self, o):
        if isinstance(o, (str, TStr, V.FmtStr)):
            return TStr(self, o)
        return NotImplemented

    def __radd__(self, o):
        return TStr(o, self) if isinstance(o, str) else NotImplemented

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, str) or p.nonempty:
                return True
        if not self.parts:
            return False
        raise Unsupported("truth of a possibly empty unknown string")

    def __eq__(self, o):
        if isinstance(o, str):
            o = TStr(o)
        if not isinstance(o, TStr):
            return False
        return equal(self.parts, o.parts)

    def __ne__(self, o):
        return V.neg(self == o)

    def __mod__(self, o):
        raise Unsupported("formatting with an unknown format")

    # -- scanning
    def find_last(self, sep):
        """Position (part, offset) of the last sep, None when there is none."""
        for i in range(len(self.parts) - 1, -1, -1):
            p = self.parts[i]
            if isinstance(p, str):
                k = p.rfind(sep)
                if k >= 0:
                    return i, k
                continue
            if p.may(sep):
                if p.dots:
                    raise Unsupported("position in an unknown number of dots")
                raise Unsupported("position of %r in an unknown string" % sep)
        return None

    def has(self, sep):
        if any(isinstance(p, str) and sep in p for p in self.parts):
            return True
        return None if any(not isinstance(p, str) and p.may(sep) for p in self.parts) else False

    def __contains__(self, sep):
        r = self.has(sep) if isinstance(sep, str) and len(sep) == 1 else None
        if r is None:
            if isinstance(sep, str) and any(isinstance(p, str) and sep in p for p in self.parts):
                return True
            raise Unsupported("containment in an unknown string")
        return r

    def cut(self, at, n):
        i, k = at
        p = self.parts[i]
        return plain(TStr(*(self.parts[:i] + [p[:k]]))), plain(TStr(*([p[k + n:]] + self.parts[i + 1:])))

    def rpartition(self, sep):
        one(sep)
        at = self.find_last(sep)
        if at is None:
            return "", "", self
        a, b = self.cut(at, 1)
        return a, sep, b

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == 1 and sep is not None:
            a, s, b = self.rpartition(sep)
            return [a, b] if s else [b]
        if maxsplit == -1:
            return self.split(sep)
        raise Unsupported("rsplit")

    def partition(self, sep):
        one(sep)
        for i, p in enumerate(self.parts):
            if isinstance(p, str):
                k = p.find(sep)
                if k >= 0:
                    a, b = self.cut((i, k), 1)
                    return a, sep, b
            elif p.may(sep):
                raise Unsupported("position of %r in an unknown string" % sep)
        return self, "", ""

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            # whitespace: the literal parts must be the only ones that contain any
            blank = [i for i, p in enumerate(self.parts) if not isinstance(p, str) and any(p.may(c) for c in " \t\n")]
            if maxsplit != -1 or blank:
                return self.words(maxsplit, blank)
            out, cur, used = [], [], False
            for p in self.parts:
                if not isinstance(p, str):
                    cur.append(p)
                    continue
                w = p.replace("\t", " ").replace("\n", " ").split(" ")
                for j, x in enumerate(w):
                    if j and cur:
                        out.append(TStr(*cur))
                        cur = []
                    if x:
                        cur.append(x)
            if cur:
                out.append(TStr(*cur))
            if any(not any(isinstance(p, str) or p.nonempty for p in x.parts) for x in out):
                raise Unsupported("possibly empty word")
            return [plain(x) for x in out]
        one(sep)
        if maxsplit == 1:
            a, s, b = self.partition(sep)
            return [a, b] if s else [a]
        if maxsplit != -1:
            raise Unsupported("split with a limit")
        out, cur, multi = [], [], False
        for p in self.parts:
            if isinstance(p, str):
                w = p.split(sep)
                cur.append(w[0])
                for x in w[1:]:
                    out.append((TStr(*cur), multi))
                    cur, multi = [x], False
            elif getattr(p, "fields", False):
                if sep != "," or any(cur):
                    raise Unsupported("split of an unknown string")
                out.append((p, True))
                cur = []
            else:
                cur.append(p)
                multi = multi or p.may(sep)
        out.append((TStr(*cur), multi))
        if not any(m for _, m in out):
            return [plain(x) for x, _ in out]
        return TList(out, sep)

    def words(self, maxsplit, blank):
        """Words of which the first is literal text followed by white space."""
        p = self.parts[0] if self.parts else ""
        w = p.split(None, 1) if isinstance(p, str) else []
        if not isinstance(p, str) or not w or len(w) == 1 and not p[-1].isspace() or maxsplit not in (-1, 1):
            raise Unsupported("white space in an unknown string")
        rest = TStr(*(w[1:] + self.parts[1:]))
        if maxsplit == 1:
            if not any(isinstance(q, str) and q.strip() or not isinstance(q, str) and q.nonempty and not any(
                    q.may(c) for c in " \t\n") for q in rest.parts[:1]):
                return TList([(w[0], False), (rest, True)], " ")
            return [w[0], plain(rest)]
        return TList([(w[0], False), (rest, True)], " ")

    def startswith(self, s, *a):
        if isinstance(s, tuple):
            return any(self.startswith(x) for x in s)
        if a or not isinstance(s, str):
            raise Unsupported("startswith")
        if not s:
            return True
        p = self.parts[0] if self.parts else ""
        if isinstance(p, str):
            if p.startswith(s):
                return True
            if len(p) >= len(s) or not s.startswith(p) or len(self.parts) <= 1:
                return False
            s, q = s[len(p):], self.parts[1]
        else:
            q = p
        if not isinstance(q, str) and not q.may(s[0]) and q.nonempty:
            return False
        if not isinstance(q, str) and s in getattr(q, "notstart", ()):
            return False
        raise Unsupported("prefix of an unknown string")

    def endswith(self, s):
        if isinstance(s, tuple):
            return any(self.endswith(x) for x in s)
        if not s:
            return True
        p = self.parts[-1] if self.parts else ""
        if isinstance(p, str):
            if p.endswith(s):
                return True
            if len(p) >= len(s) or not s.endswith(p) or len(self.parts) <= 1:
                return False
            s, q = s[:-len(p)], self.parts[-2]
        else:
            q = p
        if not isinstance(q, str) and not q.may(s[-1]) and q.nonempty:
            return False
        raise Unsupported("suffix of an unknown string")

    def mapcase(self, f):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(f(p))
            elif isinstance(p, Atom) and p.free:
                if not hasattr(p, "cased"):
                    p.cased = {}
                if f not in p.cased:
                    p.cased[f] = p.renew(notin=tuple(f(x) for x in p.notin) if p.oneway else (), name=p.name + "_" + f.__name__, cased={},
                                         notstart=())
                out.append(p.cased[f])
            else:
                raise Unsupported("letter case of an unknown string")
        return TStr(*out)

    def lower(self):
        return self.mapcase(str.lower)

    def upper(self):
        return self.mapcase(str.upper)

    def trim(self, chars, left, right):
        ps = list(self.parts)
        chars = " \t\n\r" if chars is None else chars
        for end in ([0] if left else []) + ([-1] if right else []):
            while ps:
                p = ps[end]
                if isinstance(p, str):
                    q = p.lstrip(chars) if end == 0 else p.rstrip(chars)
                    if q:
                        ps[end] = q
                        break
                    ps.pop(end)
                    continue
                if any(p.may(c) for c in chars) or not p.nonempty:
                    raise Unsupported("trimming of an unknown string")
                break
        return plain(TStr(*ps))

    def strip(self, chars=None):
        return self.trim(chars, True, True)

    def lstrip(self, chars=None):
        return self.trim(chars, True, False)

    def rstrip(self, chars=None):
        return self.trim(chars, False, True)

    def removeprefix(self, s):
        return self[len(s):] if s and self.startswith(s) else self

    def removesuffix(self, s):
        return self[:-len(s)] if s and self.endswith(s) else self

    def replace(self, a, b):
        if any(not isinstance(p, str) and (len(a) != 1 or p.may(a)) for p in self.parts):
            raise Unsupported("replacement in an unknown string")
        return plain(TStr(*[p.replace(a, b) if isinstance(p, str) else p for p in self.parts]))

    def toint(self, base):
        ps = self.parts
        if len(ps) == 2 and ps[0] in ("0x", "0X") and isinstance(ps[1], Hex) and base in (16, 0):
            return ps[1].v
        if len(ps) == 1 and isinstance(ps[0], Hex) and base == 16:
            return ps[0].v
        if len(ps) == 1 and isinstance(ps[0], Num) and base == 10:
            return ps[0].v
        if len(ps) == 2 and ps[0] in ("0x", "0X") and isinstance(ps[1], Hex) and base < 16:
            raise ValueError("invalid literal for int() with base %d" % base)
        raise Unsupported("number in an unknown string")

    def encode(self, *a):
        raise Unsupported("encoding of an unknown string")

    def __len__(self):
        raise Unsupported("length of an unknown string")

    def __iter__(self):
        raise Unsupported("characters of an unknown string")

    def slice_parts(self, a, b):
        raise Unsupported("slice of an unknown string")

    def __getitem__(self, s):
        """Slices that cut within the literal text at either end."""
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported("character of an unknown string")
        ps = list(self.parts)
        if s.start is not None:
            if not isinstance(s.start, int) or s.start < 0 or not isinstance(ps[0], str) or len(ps[0]) < s.start:
                raise Unsupported("slice of an unknown string")
            ps[0] = ps[0][s.start:]
        if s.stop is not None:
            if not isinstance(s.stop, int) or s.stop >= 0 or not isinstance(ps[-1], str) or len(ps[-1]) < -s.stop:
                raise Unsupported("slice of an unknown string")
            ps[-1] = ps[-1][:s.stop]
        return plain(TStr(*ps))


def one(sep):
    if not isinstance(sep, str) or len(sep) != 1:
        raise Unsupported("separator %r" % (sep,))


class TList(object):
    """Result of a split whose pieces marked multi stand for any number of pieces (at least one)."""
    __tlist__ = True

    def __init__(self, items, sep):
        self.items, self.sep = items, sep

    def __len__(self):
        raise Unsupported("number of parts of an unknown string")

    def __iter__(self):
        raise Unsupported("parts of an unknown string")

    def symiter(self):
        return FieldIter(self)

    @property
    def symlist(self):
        raise AttributeError("symlist")

    def __getitem__(self, i):
        it = self.items
        if isinstance(i, slice):
            if i.step is not None or any(x is not None and not isinstance(x, int) for x in (i.start, i.stop)):
                raise Unsupported("slice of an unknown list")
            a, b = i.start or 0, i.stop
            if a < 0 or (b is not None and b >= 0):
                raise Unsupported("slice of an unknown list")
            n = -b if b is not None else 0
            if any(m for _, m in it[:a]) or any(m for _, m in it[len(it) - n:]) or a + n > len(it):
                raise Unsupported("slice of an unknown list")
            return TList(it[a:len(it) - n], self.sep)
        if not isinstance(i, int):
            raise Unsupported("element of an unknown list")
        part = it[:i + 1] if i >= 0 else it[i:]
        if any(m for _, m in part) or not -len(it) <= i < len(it):
            raise Unsupported("element of an unknown list")
        return it[i][0]

    def __add__(self, o):
        return TList(self.items + [(x, False) for x in o], self.sep)

    def tjoin(self, sep):
        if sep != self.sep and any(m for _, m in self.items):
            raise Unsupported("join of an unknown list")
        out = []
        for i, (x, _) in enumerate(self.items):
            if i:
                out.append(sep)
            out.append(x)
        return TStr(*out)


class FieldIter(object):
    """Pieces of a comma-separated list with any number of unknown fields in it."""

    def __init__(self, tl):
        if any(m and not isinstance(x, Atom) for x, m in tl.items):
            raise Unsupported("parts of an unknown string")
        self.tl, self.k = tl, 0

    def advance(self, act):
        e = V.ENG
        e.symdec += 1
        it = self.tl.items
        while self.k < len(it):
            x, multi = it[self.k]
            if not multi:
                self.k += 1
                act.value = plain(x)
                return True
            if bool(e.fresh_bool("more_fields")):
                act.value = TStr(Atom("key", no=",= \t\n", nonempty=True, free=True, notin=x.notin), "=",
                                 Atom("fieldvalue", no=",= \t\n"))
                return True
            self.k += 1
        return False

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "fields", self.k))


def equal(a, b):
    """Equality of two templates: True or False when that holds for all of their instances."""
    a, b = list(a), list(b)
    conds = []
    while a and b:
        for end in (0, -1):
            while a and b:
                p, q = a[end], b[end]
                if isinstance(p, str) and isinstance(q, str):
                    n = min(len(p), len(q))
                    if end == 0:
                        if p[:n] != q[:n]:
                            return False
                        a[0], b[0] = p[n:], q[n:]
                    else:
                        if p[len(p) - n:] != q[len(q) - n:]:
                            return False
                        a[-1], b[-1] = p[:len(p) - n], q[:len(q) - n]
                    if not a[end]:
                        a.pop(end)
                    if not b[end]:
                        b.pop(end)
                elif p is q:
                    a.pop(end)
                    b.pop(end)
                elif isinstance(p, Num) and isinstance(q, Num) and p.spec == q.spec and digits_end(a, end) and digits_end(
                        b, end):
                    # the number ends where something that is no digit follows, so the numbers themselves are equal
                    conds.append(V.eq(p.v, q.v))
                    a.pop(end)
                    b.pop(end)
                else:
                    break
        break
    if not a and not b:
        return V.land(*conds) if conds else True
    rest = a or b
    if (not a or not b) and any(isinstance(p, str) or p.nonempty for p in rest):
        return False
    if len(a) == len(b) == 1 or not a or not b:
        # unknown names
        x, y = a[0] if a else "", b[0] if b else ""
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Atom) and p.free:
                if isinstance(q, str):
                    if q in p.notin or any(not p.may(c) for c in q) or any(q.startswith(n) for n in p.notstart) or (
                            p.nonempty and not q):
                        return False
                if isinstance(q, (str, Atom)):
                    return V.ENG.fresh_bool("same_name")
    if len(b) == 1 and len(a) > 1:
        a, b = b, a
    if len(a) == 1 and isinstance(a[0], Atom) and a[0].free:
        # some other text with unknown parts
        if any(isinstance(p, str) and any(not a[0].may(c) for c in p) for p in b):
            return False
        return V.ENG.fresh_bool("same_name")
    if a and b:
        for x, y in ((a, b), (b, a)):
            for end in (0, -1):
                p, q = x[end], y[end]
                if isinstance(p, str) and not isinstance(q, str) and not q.may(p[end]) and q.nonempty:
                    return False
    raise Unsupported("comparison of %s with %s" % (TStr(*a), TStr(*b)))


def digits_end(ps, end):
    if len(ps) == 1:
        return True
    nxt = ps[1 if end == 0 else -2]
    if isinstance(nxt, str):
        c = nxt[0 if end == 0 else -1]
        return not (c.isdigit() or c == "-" or c.isalpha() and False)
    return False


# ------------------------------------------------------------------------------------------ formatting
def has(x):
    return hasattr(x, "__tstr__") or isinstance(x, (tuple, list)) and any(has(y) for y in x)


def mod(fmt, args):
    """fmt % args with template strings among the arguments (or numbers, when a template is wanted)."""
    if isinstance(args, dict):
        raise Unsupported("format with a dictionary")
    import re
    out, n, pos = [], 0, 0
    for m in re.finditer(r"%([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(2) == "%":
            out.append("%")
            continue
        if n >= len(args):
            raise TypeError("not enough arguments for format string")
        out.append(conv(args[n], m.group(1), m.group(2), m.group(0)))
        n += 1
    out.append(fmt[pos:])
    if n != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return TStr(*out)


def conv(x, flags, kind, spec):
    x = lift(x)
    if hasattr(x, "__tstr__"):
        if kind == "s" and not flags:
            return x
        raise Unsupported("format %s of an unknown string" % spec)
    if isinstance(x, V.Sym):
        if kind in "di" and isinstance(V.as_int(x), V.SymInt):
            return Num("%" + flags + "d", V.as_int(x))
        if kind == "s" and not flags:
            return Num("%d", V.as_int(x))
        raise Unsupported("format %s of a number" % spec)
    return spec % (x,)


def fmtspec(x, conversion, spec):
    x = lift(x)
    if hasattr(x, "__tstr__"):
        if spec in ("", "s") and conversion in (-1, 115):
            return x
        raise Unsupported("format %r of an unknown string" % spec)
    if isinstance(x, V.Sym):
        if spec.endswith("d") or not spec:
            return Num("%" + (spec or "d"), V.as_int(x))
        raise Unsupported("format %r" % spec)
    if conversion == 114:
        x = repr(x)
    elif conversion == 115:
        x = str(x)
    return format(x, spec)


def fmt_method(s, args):
    import string
    out, auto = [], 0
    for lit, field, spec, cv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            field, auto = auto, auto + 1
        elif not field.isdigit():
            raise Unsupported("format field %r" % field)
        out.append(fmtspec(args[int(field)], ord(cv) if cv else -1, spec))
    return TStr(*out)


def join(sep, seq):
    if hasattr(seq, "__tlist__"):
        return seq.tjoin(sep)
    out = []
    for i, x in enumerate(seq):
        if i:
            out.append(sep)
        out.append(x)
    return TStr(*out)


# ------------------------------------------------------------------------------------------ os.path
def splitext(t):
    if isinstance(t, str):
        import os
        return os.path.splitext(t)
    ps = t.parts
    for i in range(len(ps) - 1, -1, -1):
        p = ps[i]
        if isinstance(p, str):
            slash, dot = p.rfind("/"), p.rfind(".")
            if dot > slash:
                # a dot in the last component: an extension unless only dots precede it there
                before = p[slash + 1:dot]
                if before.strip("."):
                    return t.cut((i, dot), 0)
                if slash >= 0:
                    return t, ""
                for j in range(i - 1, -1, -1):
                    q = ps[j]
                    if isinstance(q, str):
                        c = q[q.rfind("/") + 1:]
                        if c.strip("."):
                            return t.cut((i, dot), 0)
                        if "/" in q:
                            return t, ""
                    elif q.nondot and not q.may("/"):
                        return t.cut((i, dot), 0)
                    elif not q.dots:
                        raise Unsupported("extension of an unknown name")
                return t, ""
            if slash >= 0:
                return t, ""
        elif p.dots:
            # only dots: an extension only if something else precedes them in the component
            for j in range(i - 1, -1, -1):
                q = ps[j]
                if isinstance(q, str):
                    if q[q.rfind("/") + 1:].strip("."):
                        raise Unsupported("extension of an unknown name")
                    if "/" in q:
                        return t, ""
                else:
                    raise Unsupported("extension of an unknown name")
            return t, ""
        elif p.may(".") or p.may("/"):
            raise Unsupported("extension of an unknown name")
    return t, ""


def pathsplit(t):
    if isinstance(t, str):
        import os
        return os.path.split(t)
    at = t.find_last("/")
    if at is None:
        return "", t
    head, tail = t.cut(at, 1)
    hp = head.parts
    if not hp or (isinstance(hp[-1], str) and hp[-1].endswith("/")) or (not isinstance(hp[-1], str) and hp[-1].may("/")):
        raise Unsupported("trailing slashes of a directory")
    return head, tail


def basename(t):
    at = t.find_last("/") if not isinstance(t, str) else None
    if isinstance(t, str):
        import os
        return os.path.basename(t)
    return t if at is None else t.cut(at, 1)[1]


def noslash(ps):
    """The text certainly ends with a character other than a slash."""
    for p in reversed(ps):
        if isinstance(p, str):
            return not p.endswith("/")
        if p.may("/"):
            return False
        if p.nonempty:
            return True
    return False


def pathjoin(a, *rest):
    import os
    if not has((a,) + rest):
        return os.path.join(a, *rest)
    r = TStr(a)
    for x in rest:
        x = TStr(x)
        if not x.parts:
            raise Unsupported("join of an empty component")
        f = x.parts[0]
        if isinstance(f, str) and f.startswith("/"):
            r = x
            continue
        if not isinstance(f, str) and f.may("/"):
            raise Unsupported("join of an unknown path")
        if not r.parts:
            r = x
        elif isinstance(r.parts[-1], str):
            r = TStr(r, "" if r.parts[-1].endswith("/") else "/", x)
        elif not noslash(r.parts):
            raise Unsupported("join to an unknown path")
        else:
            r = TStr(r, "/", x)
    return r


def os_path(**kw):
    m = types.ModuleType("os.path")
    m.__dict__.update(splitext=splitext, basename=basename, join=pathjoin, split=pathsplit, sep="/",
                      dirname=lambda t: pathsplit(t)[0])
    m.__dict__.update(kw)
    return m


# ------------------------------------------------------------------------------------------ unknown characters
class CStr(object):
    """String of known length with unknown characters (code points)."""

    def __init__(self, codes):
        self.codes = tuple(codes)

    @staticmethod
    def codes_of(x):
        if isinstance(x, CStr):
            return x.codes
        if isinstance(x, str):
            return tuple(ord(c) for c in x)
        raise Unsupported("string operation with %r" % type(x))

    @staticmethod
    def join(sep, seq):
        out = []
        for k, x in enumerate(seq):
            if k:
                out += CStr.codes_of(sep)
            out += CStr.codes_of(x)
        return CStr(out)

    def __len__(self):
        return len(self.codes)

    def __add__(self, o):
        return CStr(self.codes + CStr.codes_of(o))

    def __radd__(self, o):
        return CStr(CStr.codes_of(o) + self.codes)

    def __iter__(self):
        return iter([CStr((c,)) for c in self.codes])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return CStr(self.codes[i])
        return CStr((self.codes[i],))

    def __eq__(self, o):
        if not isinstance(o, (CStr, str)):
            return False
        a, b = self.codes, CStr.codes_of(o)
        return len(a) == len(b) and V.land(*[V.eq(x, y) for x, y in zip(a, b)])

    def __ne__(self, o):
        return V.neg(self == o)

    def __hash__(self):
        raise Unsupported("hash of an unknown string")

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "cstr", len(self.codes)))
        for k, c in enumerate(self.codes):
            slots[path + (k,)] = EN.Slot(c, "leaf", None)


def char_of(s, i):
    """s[i] of a known string at an unknown position."""
    n = len(s)
    if not (V.lo(i) is not None and V.lo(i) >= 0 and V.hi(i) is not None and V.hi(i) < n) and not V.ENG.entailed(
            V.boolterm(V.land(i >= 0, i < n))):
        if not bool(V.land(i >= -n, i < n)):
            raise IndexError("string index out of range")
        i = V.ite(i < 0, i + n, i)
    from . import nparr
    k = (s, i.t.get_id() if not isinstance(i, int) else i)
    r = CHAR_MEMO.get(k)
    if r is None:
        r = CHAR_MEMO[k] = (i, nparr.table([ord(c) for c in s], i))
    return CStr((r[1],))


CHAR_MEMO = {}      # (string, term) -> (term kept alive, code)
