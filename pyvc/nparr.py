"""numpy 1.22 stand-in for the verified code: the operations /repo uses, with that version's promotion rules.

Arrays are flat buffers with strided views (aliasing as in numpy); the content of a buffer is a persistent
function from flat index to element, so arrays of unknown content and element-wise results are exact.
Integer elements wrap at their width exactly as numpy's do."""
import types
import builtins
import z3
from . import values as V
from . import engine as EN
from .values import SymInt, SymBool, SymReal, Sym, Unsupported

I64 = "int64"
INFO = {"bool": (1, False), "uint8": (8, False), "int8": (8, True), "uint16": (16, False), "int16": (16, True),
        "uint32": (32, False), "int32": (32, True), "uint64": (64, False), "int64": (64, True)}
FLOATS = ("float16", "float32", "float64")


def bounds(dt):
    b, s = INFO[dt]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def isint(dt):
    return dt in INFO and dt != "bool"


def promote(a, b):
    if a == b:
        return a
    if a in FLOATS or b in FLOATS:
        if a in FLOATS and b in FLOATS:
            return a if FLOATS.index(a) > FLOATS.index(b) else b
        f, i = (a, b) if a in FLOATS else (b, a)
        if i == "bool":
            return f
        need = {8: "float16", 16: "float32"}.get(INFO[i][0], "float64")
        return f if FLOATS.index(f) >= FLOATS.index(need) else need
    if a == "bool":
        return b
    if b == "bool":
        return a
    (ba, sa), (bb, sb) = INFO[a], INFO[b]
    if sa == sb:
        return a if ba > bb else b
    u, sgn = (b, a) if sa else (a, b)
    need = INFO[u][0] * 2
    if INFO[sgn][0] >= need:
        return sgn
    return {16: "int16", 32: "int32", 64: "int64", 128: "float64"}[need]


def dtname(d):
    if d is None:
        return "float64"
    if isinstance(d, str):
        d = d.split(".")[-1]
        return {"int": I64, "float": "float64", "bool8": "bool", "uint": "uint64"}.get(d, d)
    if isinstance(d, type) and issubclass(d, NpScalar) and d is not NpScalar:
        return d.DT
    if isinstance(d, Dtype):
        return d.name
    n = getattr(d, "__name__", None)
    r = {"int": I64, "sint": I64, "float": "float64", "sfloat": "float64", "bool": "bool"}.get(n)
    if r is None:
        raise Unsupported("dtype %r" % (d,))
    return r


class Dtype(object):
    def __init__(self, name):
        self.name = name
        self.itemsize = 1 if name == "bool" else (INFO[name][0] // 8 if name in INFO else int(name[5:]) // 8)

    def __eq__(self, o):
        try:
            return dtname(o) == self.name
        except Unsupported:
            return False

    __hash__ = None


# ------------------------------------------------------------------------------------------ raw values
def wrap(v, dt):
    """Value v (any raw number) stored into dtype dt, modulo its width."""
    if dt in FLOATS:
        if isinstance(v, (SymInt, SymBool)):
            return SymReal(V.realterm(v))
        if isinstance(v, SymReal):
            return v
        return builtins.float(v)
    if dt == "bool":
        if isinstance(v, (SymInt, SymReal)):
            return v != 0
        if isinstance(v, SymBool):
            return v
        return builtins.bool(v)
    if isinstance(v, SymReal):
        v = V.real_trunc(v)
    elif isinstance(v, builtins.float):
        v = int(v)
    v = V.as_int(v)
    l, h = bounds(dt)
    if isinstance(v, int):
        m = (v - l) % (h - l + 1)
        return m + l
    if v.lo is not None and v.hi is not None and l <= v.lo and v.hi <= h:
        return v
    bits, signed = INFO[dt]
    if V.kind(v) == "int":
        if V.ENG.entailed(z3.And(v.t >= l, v.t <= h)):
            return SymInt(v.t, l, h)
        if signed:
            return V.mkint((v.t - l) % (h - l + 1) + l, l, h)
        return V.mkint(v.t % (h + 1), 0, h)
    w = V.width(v.lo, v.hi)
    t = V.bvterm(v, max(w, bits))
    t = z3.Extract(bits - 1, 0, t)
    return V.from_sbv(t) if signed else V.from_ubv(t)


def raw(x):
    if isinstance(x, NpScalar):
        return x.v
    return x


def rawop(op, a, b, dt):
    """Element operation in dtype dt (operands already raw)."""
    if op in ("==", "!=", "<", "<=", ">", ">="):
        if op == "==":
            return V.eq(a, b)
        if op == "!=":
            return V.neg(V.eq(a, b))
        if isinstance(a, (bool, SymBool)):
            a = V.as_int(a)
        if isinstance(b, (bool, SymBool)):
            b = V.as_int(b)
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
    if dt == "bool":
        if op in ("&", "*"):
            return V.land(a, b)
        if op in ("|", "+"):
            return V.lor(a, b)
        if op == "^":
            return V.mkbool(z3.Xor(V.boolterm(a), V.boolterm(b)))
        raise Unsupported("bool array operation %s" % op)
    if dt in FLOATS:
        a, b = wrap(a, dt), wrap(b, dt)
        if op in "+-*":
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
            return r
        if op == "/":
            if isinstance(b, builtins.float) and b == 0:
                raise Unsupported("numpy division by zero (inf/nan)")
            if isinstance(b, SymReal) and not V.ENG.entailed(b.t != 0):
                if builtins.bool(V.mkbool(b.t == 0)):
                    return SymReal(INF)
            return a / b
        if op == "%":
            return a % b
        raise TypeError("ufunc not supported for the input types")
    a, b = wrap(a, dt), wrap(b, dt)
    if op in ("+", "-", "*"):
        r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
    elif op in ("&", "|", "^"):
        r = {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
    elif op == "<<":
        bits = INFO[dt][0]
        if isinstance(b, int) and b >= bits:
            return 0
        if isinstance(b, SymInt) and (b.hi is None or b.hi > 64):
            b = V.ite(b > 64, 64, b)
            b = V.mkbv(V.bvterm(b, 9), 0, 64) if V.kind(b) == "bv" else b
        r = a << b
    elif op == ">>":
        if isinstance(b, SymInt) and (b.hi is None or b.hi > 64):
            b = V.ite(b > 64, 64, b)
            b = V.mkbv(V.bvterm(b, 9), 0, 64) if V.kind(b) == "bv" else b
        r = a >> b
    elif op == "//":
        r = V.divmod_(a, b)[0]
    elif op == "%":
        r = V.divmod_(a, b)[1]
    elif op == "**":
        r = a ** b
    else:
        raise Unsupported("numpy operation %s" % op)
    return wrap(r, dt)


INF = z3.Real("numpy_inf")


def pydt(x):
    """dtype of a Python scalar (or symbolic scalar)."""
    if isinstance(x, (bool, SymBool)):
        return "bool"
    if isinstance(x, (builtins.float, SymReal)):
        return "float64"
    if isinstance(x, int):
        return I64 if -(1 << 63) <= x < (1 << 63) else "uint64"
    if isinstance(x, SymInt):
        if x.lo is not None and x.hi is not None and x.lo >= -(1 << 63) and x.hi < (1 << 63):
            return I64
        if x.lo is None or x.hi is None:
            return I64
        raise Unsupported("symbolic integer beyond 64 bits in numpy")
    return None


BITOPS = ("&", "|", "^", "<<", ">>")
CMP = ("==", "!=", "<", "<=", ">", ">=")


def result_dt(op, da, db):
    dt = promote(da, db)
    if op in BITOPS and dt in FLOATS:
        raise TypeError("ufunc 'bitwise' not supported for the input types")
    if op == "/" and dt not in FLOATS:
        return "float64"
    if op in ("<<", ">>") and dt == "bool":
        return "int8"
    if op == "-" and dt == "bool":
        raise TypeError("numpy boolean subtract")
    return dt


class NpScalar(object):
    DT = None
    __slots__ = ("v",)

    def __init__(self, v=0):
        if isinstance(v, NpScalar):
            v = v.v
        if isinstance(v, NArr):
            v = v.item_raw()
        self.v = wrap(v, self.DT)

    @property
    def __np_scalar__(self):
        return self.DT

    def like(self, v):
        return mk(self.DT, v)

    def fresh(self, base):
        return mk(self.DT, fresh_raw(self.DT, base))

    def __same__(self, o):
        return EN.same(self.v, o.v)

    def __symint__(self):
        if self.DT in FLOATS:
            raise Unsupported("integer of a float scalar")
        return V.as_int(self.v)

    def __symreal__(self):
        return V.realterm(self.v)

    def __symbool__(self):
        return V.boolterm(self.v if not isinstance(self.v, SymReal) else self.v != 0)

    def __symval__(self):
        return self.v

    def to_int(self):
        if isinstance(self.v, (SymReal, builtins.float)):
            return V.real_trunc(self.v) if isinstance(self.v, SymReal) else int(self.v)
        return V.as_int(self.v)

    def __index__(self):
        if self.DT in FLOATS:
            raise TypeError("'numpy.%s' object cannot be interpreted as an integer" % self.DT)
        v = V.as_int(self.v)
        return v if isinstance(v, int) else V.ENG.concretize(v)

    def __int__(self):
        return self.__index__() if self.DT in INFO else int(self.v)

    def __float__(self):
        return builtins.float(self.v)

    def __bool__(self):
        return builtins.bool(self.v) if not isinstance(self.v, (SymInt, SymReal)) else builtins.bool(self.v != 0)

    def __hash__(self):
        if isinstance(self.v, Sym):
            return id(self)
        return hash(self.v)

    def __repr__(self):
        return "np.%s(%r)" % (self.DT, self.v)

    def __format__(self, spec):
        return format(self.v, spec)

    def _bin(self, op, o, rev=False):
        if isinstance(o, NArr):
            return NotImplemented
        if isinstance(o, NpScalar):
            do, ov = o.DT, o.v
        else:
            do = pydt(o)
            if do is None:
                return NotImplemented
            ov = o
        dt = result_dt(op, self.DT, do) if op not in CMP else promote(self.DT, do)
        a, b = (ov, self.v) if rev else (self.v, ov)
        if op in CMP:
            if dt in FLOATS and not (self.DT in FLOATS or do in FLOATS):
                dt = None
            return mk("bool", rawop(op, a, b, dt))
        if op == "**" and isinstance(a, int) and isinstance(b, int) and dt in FLOATS:
            return mk(dt, builtins.float(a) ** b)
        if op == "**" and dt in FLOATS and isinstance(a, (int, builtins.float)) and isinstance(b, (int, builtins.float)):
            return mk(dt, builtins.float(a) ** builtins.float(b))
        return mk(dt, rawop(op, a, b, dt))

    def __neg__(self):
        return mk(self.DT, rawop("-", 0, self.v, self.DT))

    def __pos__(self):
        return self

    def __invert__(self):
        if self.DT == "bool":
            return mk("bool", V.neg(self.v))
        if self.DT in FLOATS:
            raise TypeError("ufunc 'invert' not supported for the input types")
        return mk(self.DT, wrap(V.arith("-", -1, self.v), self.DT))

    def __abs__(self):
        return mk(self.DT, wrap(abs(self.v), self.DT))

    def astype(self, dt):
        return mk(dtname(dt), self.v)

    def item(self):
        return self.v

    def tolist(self):
        return self.v

    @property
    def dtype(self):
        return Dtype(self.DT)

    @property
    def shape(self):
        return ()

    def is_integer(self):
        return V.mkbool(z3.IsInt(V.realterm(self.v)))


def _mk_ops(cls, binf):
    for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"),
                  ("and", "&"), ("or", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"), ("pow", "**")):
        setattr(cls, "__%s__" % n, (lambda self, o, op=op: getattr(self, binf)(op, o)))
        setattr(cls, "__r%s__" % n, (lambda self, o, op=op: getattr(self, binf)(op, o, True)))
    for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        setattr(cls, "__%s__" % n, (lambda self, o, op=op: getattr(self, binf)(op, o)))


_mk_ops(NpScalar, "_bin")
SC = {}
for _d in list(INFO) + list(FLOATS):
    SC[_d] = type(_d if _d != "bool" else "bool_", (NpScalar,), {"DT": _d, "__slots__": ()})


def mk(dt, v):
    s = SC[dt].__new__(SC[dt])
    s.v = wrap(v, dt)
    return s


def fresh_raw(dt, base):
    e = V.ENG
    if dt == "bool":
        return e.fresh_bool(base)
    if dt in FLOATS:
        return e.fresh_real(base)
    return e.fresh_int(base, *bounds(dt), bv=True)


# ------------------------------------------------------------------------------------------ index algebra
def lin(i, n, o):
    """i*n + o with 0 <= o < n, as a concatenation when n is a power of two."""
    i, o = V.as_int(i), V.as_int(o)
    if isinstance(i, int) and isinstance(o, int):
        return i * n + o
    if isinstance(i, int) and i == 0:
        return o
    if n & (n - 1) == 0 and n > 1 and V.kind(i) != "int" and V.kind(o) != "int" and V.lo(i) >= 0 and V.lo(o) >= 0 \
            and V.hi(o) < n:
        k = n.bit_length() - 1
        wi = max(V.hi(i).bit_length(), 1)
        it, ot = V.bvterm(i, wi + 1), V.bvterm(o, k + 1)
        t = z3.Concat(z3.Extract(wi, 0, it), z3.Extract(k - 1, 0, ot))
        return V.mkbv(t, V.lo(i) * n + V.lo(o), V.hi(i) * n + V.hi(o))
    return i * n + o


def split(f, n):
    """divmod(f, n) for f >= 0."""
    f = V.as_int(f)
    if isinstance(f, int):
        return divmod(f, n)
    if isinstance(n, int) and n == 1:
        return f, 0
    if f.lo is not None and f.lo >= 0 and f.hi is not None and isinstance(n, int) and f.hi < n:
        return 0, f
    if isinstance(n, int) and n & (n - 1) == 0 and V.kind(f) == "bv" and f.lo >= 0:
        k = n.bit_length() - 1
        w = f.t.size()
        q = z3.ZeroExt(1, z3.Extract(w - 1, k, f.t)) if w > k else None
        r = z3.ZeroExt(1, z3.Extract(k - 1, 0, f.t))
        return V.mkbv(q, f.lo >> k, f.hi >> k), V.mkbv(r, 0, min(n - 1, f.hi))
    return V.divmod_(f, n)


def ikey(i):
    return i if isinstance(i, int) else ("t", i.t.get_id())


# ------------------------------------------------------------------------------------------ contents
class Content(object):
    def __init__(self):
        self.memo = {}

    def get(self, i):
        k = ikey(i)
        r = self.memo.get(k)
        if r is None:
            v = self.compute(i)
            self.memo[k] = (v, i)
            return v
        return r[0]


class Conc(Content):
    """Known content (list of raw values)."""

    def __init__(self, data):
        Content.__init__(self)
        self.data = data

    def get(self, i):
        if isinstance(i, int):
            return self.data[i]
        return Content.get(self, i)

    def compute(self, i):
        return table(self.data, i)


def table(data, i):
    """Element of a concrete table at a symbolic index, as a reduced decision tree over the index bits."""
    n = len(data)
    if n > 2 and type(data[0]) is int and type(data[1]) is int:
        a, d = data[0], data[1] - data[0]
        if d and all(type(x) is int and x == a + d * k for k, x in enumerate(data)):
            return i * d + a
    if V.kind(i) == "int":
        i = V.mkbv(z3.Int2BV(i.t, V.width(0, n - 1)), 0, n - 1)
    w = V.hi(i).bit_length()
    pad = list(data[:1 << w]) + [data[-1]] * ((1 << w) - n)
    it = V.bvterm(i, w + 1)
    bits = [z3.simplify(z3.Extract(k, k, it) == 1) for k in range(w)]
    memo = {}
    vals = {}
    level = []
    for x in pad:
        if isinstance(x, Sym):
            key = ("s", x.t.get_id())
        else:
            key = ("c", type(x).__name__, x)
        vals.setdefault(key, x)
        level.append(key)
    for k in range(w):
        nxt = []
        for j in range(0, len(level), 2):
            a, b = level[j], level[j + 1]
            if a == b:
                nxt.append(a)
                continue
            key = ("n", k, a, b)
            if key not in memo:
                memo[key] = key if len(memo) < 3000 else None
                if memo[key] is None:
                    raise Unsupported("symbolic index into a large irregular table")
                vals[key] = V.ite(V.SymBool(bits[k]), vals[b], vals[a])
            nxt.append(key)
        # shorten keys
        short = {}
        out = []
        for key in nxt:
            if key[0] == "n":
                if key not in short:
                    short[key] = ("m", k, id(vals[key]))
                    vals[short[key]] = vals[key]
                out.append(short[key])
            else:
                out.append(key)
        level = out
    return vals[level[0]]


class Fn(Content):
    def __init__(self, f):
        Content.__init__(self)
        self.compute = f


class Upd(Content):
    """base with one element replaced."""

    def __init__(self, base, at, val):
        Content.__init__(self)
        self.base, self.at, self.val = base, at, val

    def get(self, i):
        if type(i) is int and type(self.at) is int:
            c = self
            while type(c) is Upd and type(c.at) is int:
                if c.at == i:
                    return c.val
                c = c.base
            return c.get(i)
        return Content.get(self, i)

    def compute(self, i):
        c = V.eq(i, self.at)
        if c is True:
            return self.val
        if c is False:
            return self.base.get(i)
        return V.ite(c, self.val, self.base.get(i))


class Fresh(Content):
    """Unknown content: an uninterpreted function of the flat index; hooks instantiate invariants per index."""

    def __init__(self, name, size, dt, hook=None):
        Content.__init__(self)
        self.size, self.dt, self.hook = size, dt, hook
        self.w = max((size - 1).bit_length(), 1) if isinstance(size, int) else None
        dom = z3.BitVecSort(self.w) if self.w else z3.IntSort()
        if dt == "bool":
            rng = z3.BoolSort()
        elif dt in FLOATS:
            rng = z3.RealSort()
        else:
            rng = z3.BitVecSort(INFO[dt][0])
        self.f = z3.Function(V.ENG.name(name), dom, rng)
        self.hooks = []

    def compute(self, i):
        x = V.bvterm(i, self.w + 1) if self.w else V.intterm(i)
        if self.w:
            x = z3.simplify(z3.Extract(self.w - 1, 0, x))
        t = self.f(x)
        if self.dt == "bool":
            v = SymBool(t)
        elif self.dt in FLOATS:
            v = SymReal(t)
        else:
            v = V.from_sbv(t) if INFO[self.dt][1] else V.from_ubv(t)
        self.memo[ikey(i)] = (v, i)
        for h in self.hooks:
            h(i)
        return v


class Buf(object):
    """Storage shared by views."""

    def __init__(self, size, dt, content, name="a"):
        self.size, self.dt, self.content, self.name = size, dt, content, name
        self.derive = None

    def set_content(self, c):
        e = V.ENG
        if e is not None and e.active:
            old = self.content
            e.log(lambda: setattr(self, "content", old))
        self.content = c

    def store(self, i, v):
        e = V.ENG
        c = self.content
        if isinstance(c, Conc) and isinstance(i, int) and not (e is not None and e.active):
            c.data[i] = v
            c.memo = {}
            return
        if e is not None and e.active and id(self) in e.globals_roots:
            e.mutated_globals[id(self)] = self
        if isinstance(c, Conc) and isinstance(i, int) and (len(c.data) <= 64 or getattr(self, "own", None) is c):
            # private copy of a known array
            if getattr(self, "own", None) is c:
                old = c.data[i]
                c.data[i] = v
                c.memo = {}
                e.log(lambda: (c.data.__setitem__(i, old), c.memo.clear()))
                return
            self.set_content(Conc(c.data[:i] + [v] + c.data[i + 1:]))
            return
        self.set_content(Upd(c, i, v))

    def havoc(self):
        if self.derive is not None:
            return
        self.set_content(Fresh("h_" + self.name, self.size, self.dt))

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "buf", str(self.size), self.dt))
        slots[path] = EN.Slot(self, "custom", None, self.havoc)

    def __token__(self):
        if isinstance(self.content, Conc):
            return (self.content, list(self.content.data))
        return (self.content, None)

    def __unchanged__(self, tok):
        c, d = tok
        if self.content is c and d is None:
            return True
        if isinstance(self.content, Conc) and d is not None and len(d) == len(self.content.data):
            return all(EN.same(x, y) for x, y in zip(d, self.content.data))
        return False


# ------------------------------------------------------------------------------------------ arrays
def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


class NArr(object):
    """View of a buffer: element (i0, i1, ..) is buffer element off + sum(ik * stride_k)."""

    __np_array__ = True

    def __init__(self, buf, shape, strides=None, off=0):
        self.buf, self.off = buf, off
        self._shape = tuple(shape)
        if strides is None:
            strides = []
            s = 1
            for n in reversed(self._shape):
                strides.insert(0, s)
                s = s * n
        self.strides = tuple(strides)

    # -- construction helpers
    @staticmethod
    def lazy(shape, dt, f):
        """Array whose element at a multi-index is f(*idx) (evaluated on the operands' current contents)."""
        shape = tuple(shape)
        size = prod(shape)

        def g(flat):
            return wrap(f(*unflat(flat, shape)), dt)
        a = NArr(Buf(size, dt, Fn(g)), shape)
        if len(shape) > 1 and not isinstance(size, int):
            # element access by multi-index as long as the content is not replaced
            a.multi = (a.buf.content, lambda *idx: wrap(f(*idx), dt))
        return a

    multi = None

    @staticmethod
    def of(data, shape, dt):
        return NArr(Buf(prod(shape), dt, Conc([wrap(x, dt) for x in data])), shape)

    @property
    def dt(self):
        return self.buf.dt

    @property
    def dtype(self):
        return Dtype(self.buf.dt)

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return prod(self._shape)

    @property
    def T(self):
        return NArr(self.buf, self._shape[::-1], self.strides[::-1], self.off)

    def __len__(self):
        return self._shape[0]

    def __symlen__(self):
        return self._shape[0]

    __hash__ = None

    def __repr__(self):
        return "NArr(%s, %s)" % (self._shape, self.dt)

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "arr", str(self._shape), str(self.strides)))
        slots[path + ("off",)] = EN.Slot(self.off, "leaf", None)
        node(path + ("buf",), self.buf, None)

    # -- element access
    def flat(self, idx):
        # combine power-of-two strides by concatenation where possible
        dims = sorted(((s, i, n) for s, i, n in zip(self.strides, idx, self._shape) if not (isinstance(n, int) and n == 1)),
                      key=lambda d: d[0] if isinstance(d[0], int) else 0)
        acc, span = 0, 1
        for s, i, n in dims:
            if isinstance(s, int) and isinstance(span, int) and isinstance(n, int) and s >= span and s > 0:
                acc = lin(i, s, acc)
                span = s * n
            else:
                acc = acc + i * s
                span = None
        if isinstance(self.off, int) and self.off == 0:
            return acc
        off = self.off
        if isinstance(span, int) and span & (span - 1) == 0:
            q, r = split(off, span) if V.lo(off) is not None and V.lo(off) >= 0 else (None, None)
            if isinstance(r, int) and r == 0:
                return lin(q, span, acc)
        if isinstance(acc, int) and acc == 0:
            return off
        return off + acc

    def at(self, *idx):
        return self.buf.content.get(self.flat(idx))

    def norm(self, i, n):
        """Index i of a dimension of size n, with Python's negative indexing and bounds check."""
        i = V.as_int(i)
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                raise IndexError("index %d is out of bounds for axis with size %d" % (i, n))
            return i + n if i < 0 else i
        ok = V.land(i >= -n if not (V.lo(i) is not None and V.lo(i) >= 0) else True, i < n)
        if not V.ENG.probing and not builtins.bool(ok):
            raise IndexError("index out of bounds")
        if V.lo(i) is not None and V.lo(i) >= 0:
            return self.clampi(i, n)
        i = V.ite(i < 0, i + n, i)
        return self.clampi(i, n)

    @staticmethod
    def clampi(i, n):
        """Narrow the interval of an index known to be in [0, n)."""
        if isinstance(i, int) or not isinstance(n, int):
            return i
        if V.kind(i) == "bv" and (i.hi > n - 1 or i.lo < 0):
            return V.mkbv(V.bvterm(i, V.width(i.lo, i.hi)), 0, n - 1)
        if V.kind(i) == "int":
            return SymInt(i.t, 0, n - 1)
        return i

    def basic(self, key):
        """Resolve a basic index; returns (view) or None when fancy indexing is involved."""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            fill = len(self._shape) - (len(key) - 1)
            key = key[:p] + (slice(None),) * fill + key[p + 1:]
        shape, strides, off = [], [], self.off
        d = 0
        for k in key:
            if k is None:
                shape.append(1)
                strides.append(1)
                continue
            if d >= len(self._shape):
                raise IndexError("too many indices for array")
            n, s = self._shape[d], self.strides[d]
            if isinstance(k, slice):
                if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    a, b, st = k.indices(n)
                    m = len(range(a, b, st))
                    off = add_off(off, a, s)
                    shape.append(m)
                    strides.append(s * st)
                elif k.start is None and k.stop is None and k.step is None:
                    shape.append(n)
                    strides.append(s)
                elif k.step in (None, 1):
                    a = V.as_int(k.start) if k.start is not None else 0
                    b = V.as_int(k.stop) if k.stop is not None else n
                    a = self.norm_slice(a, n)
                    b = self.norm_slice(b, n)
                    m = b - a
                    m = V.ite(m > 0, m, 0)
                    off = add_off(off, a, s)
                    shape.append(m)
                    strides.append(s)
                else:
                    raise Unsupported("symbolic slice with a step")
            elif isinstance(k, (NArr, list)):
                return None
            else:
                i = self.norm(k, n)
                off = add_off(off, i, s)
            d += 1
        shape += self._shape[d:]
        strides += self.strides[d:]
        return shape, strides, off

    @staticmethod
    def norm_slice(a, n):
        a = V.as_int(a)
        a = V.ite(a < 0, a + n, a) if not (V.lo(a) is not None and V.lo(a) >= 0) else a
        a = V.ite(a < 0, 0, a) if not (V.lo(a) is not None and V.lo(a) >= 0) else a
        return V.ite(a > n, n, a)

    def __getitem__(self, key):
        b = self.basic(key)
        if b is not None:
            shape, strides, off = b
            if not shape and self.multi is not None and self.multi[0] is self.buf.content:
                ks = key if isinstance(key, tuple) else (key,)
                return mk(self.dt, self.multi[1](*[self.norm(V.as_int(k), n) for k, n in zip(ks, self._shape)]))
            if not shape:
                return mk(self.dt, self.buf.content.get(off))
            return NArr(self.buf, shape, strides, off)
        return self.fancy_get(key)

    def frozen(self):
        """The same view over the current content (later writes to the buffer are not seen)."""
        b = Buf(self.buf.size, self.buf.dt, self.freeze_content())
        return NArr(b, self._shape, self.strides, self.off)

    def freeze_content(self):
        c = self.buf.content
        if isinstance(c, Conc) and getattr(self.buf, "own", None) is c:
            return Conc(list(c.data))
        if isinstance(c, Conc) and not (V.ENG is not None and V.ENG.active):
            return Conc(list(c.data))
        return c

    def fancy_get(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        src = self.frozen()
        if len(key) == 1 and isinstance(key[0], NArr) and key[0].dt == "bool":
            m = key[0].frozen()
            if m._shape != self._shape:
                raise IndexError("boolean index did not match indexed array")
            d = Domain.of_mask(m)
            return NArr.lazy_dom(d, self.dt, lambda k: src.at(*d.idx(k)))
        ks = [to_arr(k).frozen() if isinstance(k, (NArr, list)) else k for k in key]
        arrs = [k for k in ks if isinstance(k, NArr)]
        if any(a.dt == "bool" for a in arrs) or any(isinstance(k, slice) for k in ks):
            raise Unsupported("mixed fancy indexing")
        if any(a.dt in FLOATS for a in arrs):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        dom = common_domain(arrs)
        shape = bshape(*[a._shape for a in arrs]) if dom is None else arrs[0]._shape
        rest = self._shape[len(ks):]
        n = len(shape)

        def f(*idx):
            base = []
            for d, k in enumerate(ks):
                if isinstance(k, NArr):
                    x = k.bat(idx[:n], shape)
                else:
                    x = V.as_int(k)
                base.append(src.fnorm(x, src._shape[d]))
            return src.at(*(base + list(idx[n:])))
        if dom is not None:
            return NArr.lazy_dom(dom, self.dt, lambda k: f(k))
        return NArr.lazy(tuple(shape) + tuple(rest), self.dt, f)

    def fnorm(self, i, n):
        """Fancy index element: bounds are checked as an obligation of the access."""
        i = V.as_int(i)
        if isinstance(i, int):
            return self.norm(i, n)
        if V.lo(i) is not None and V.lo(i) >= 0 and V.hi(i) is not None and isinstance(n, int) and V.hi(i) < n:
            return i
        if not V.ENG.entailed(V.boolterm(V.land(i >= 0, i < n))):
            return self.norm(i, n)
        return self.clampi(i, n)

    def bat(self, idx, shape):
        """Element under broadcasting to shape."""
        k = len(shape) - len(self._shape)
        return self.at(*[0 if (isinstance(n, int) and n == 1) else i for i, n in zip(idx[k:], self._shape)])

    def __setitem__(self, key, val):
        b = self.basic(key)
        dt = self.dt
        if b is not None:
            shape, strides, off = b
            if not shape:
                v = val.item_raw() if isinstance(val, NArr) else raw(val)
                if isinstance(v, (NArr, list, tuple, str)) or v is None:
                    raise Unsupported("storing %r into an array" % type(v))
                self.buf.store(off, wrap(v, dt))
                return
            view = NArr(self.buf, shape, strides, off)
            view.bulk(val)
            return
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and isinstance(key[0], NArr) and key[0].dt == "bool":
            m = key[0].frozen()
            if m._shape != self._shape:
                raise IndexError("boolean index did not match indexed array")
            if isinstance(val, NArr):
                raise Unsupported("masked assignment of an array")
            v = wrap(raw(val), dt)
            old = self.frozen()
            self.assign(lambda *idx: V.ite(V.mkbool(V.boolterm(m.at(*idx))), v, old.at(*idx))
                        if not isinstance(m.at(*idx), bool) else (v if m.at(*idx) else old.at(*idx)))
            return
        ks = [to_arr(k).frozen() if isinstance(k, (NArr, list)) else k for k in key]
        arrs = [k for k in ks if isinstance(k, NArr)]
        if len(ks) == len(self._shape) and all(isinstance(a._shape[0], int) and a._shape[0] <= 512 and a.ndim == 1
                                               for a in arrs) and not any(isinstance(k, slice) for k in ks):
            n = arrs[0]._shape[0]
            va = to_arr(val).frozen() if isinstance(val, (NArr, list)) else None
            for j in range(n):
                idx = [V.as_int(k.at(j)) if isinstance(k, NArr) else k for k in ks]
                self[tuple(idx)] = va.at(j) if va is not None else val
            return
        perm = self.scatter(ks, val)
        if perm:
            return
        raise Unsupported("fancy assignment")

    def scatter(self, ks, val):
        """a[i, index_array] = values where index_array is an involution of the row (shown for every position)."""
        if len(ks) != len(self._shape) or not all(isinstance(n, int) for n in self._shape):
            return False
        axes = [d for d, k in enumerate(ks) if isinstance(k, NArr)]
        if len(axes) != 1:
            return False
        ax = axes[0]
        p, n = ks[ax], self._shape[ax]
        if p.ndim != 1 or p._shape[0] != n:
            return False
        e = V.ENG
        u = e.fresh_int("position", 0, n - 1, bv=True)
        q = V.as_int(p.at(u))
        if not e.entailed(V.boolterm(V.land(q >= 0, q < n))):
            return False
        q = self.clampi(q, n)
        if not e.entailed(V.boolterm(V.eq(V.as_int(p.at(q)), u))):
            return False
        rest = [None if d == ax else self.norm(V.as_int(k), m) for d, (k, m) in enumerate(zip(ks, self._shape))]
        va = to_arr(val).frozen() if isinstance(val, (NArr, list)) else None
        x = None if va is not None else raw(val)
        old = self.frozen()

        def f(*idx):
            hit = V.land(*[V.eq(i, r) for i, r in zip(idx, rest) if r is not None])
            if hit is False:
                return old.at(*idx)
            v = wrap(x if va is None else va.bat((self.clampi(V.as_int(p.at(idx[ax])), n),), (n,)), self.dt)
            return v if hit is True else V.ite(hit, v, old.at(*idx))
        self.assign(f)
        return True

    def assign(self, f):
        """Replace every element of this view by f(*idx)."""
        if isinstance(self.size, int) and self.size <= 64 and all(isinstance(o, int) for o in (self.off,)):
            new = [(self.flat(idx), wrap(f(*idx), self.dt)) for idx in all_idx(self._shape)]
            for i, v in new:
                self.buf.store(i, v)
            return
        old = self.buf.content if not (isinstance(self.buf.content, Conc)) else self.freeze_content()
        dt = self.dt
        if self.whole():
            self.buf.set_content(Fn(lambda flat: wrap(f(*unflat(flat, self._shape)), dt)))
            self.mark()
            return
        inv = self.inverse

        def g(flat):
            ok, idx = inv(flat)
            if ok is False:
                return old.get(flat)
            if ok is True:
                return wrap(f(*idx), dt)
            return V.ite(ok, wrap(f(*idx), dt), old.get(flat))
        self.buf.set_content(Fn(g))
        self.mark()

    def mark(self):
        e = V.ENG
        if e is not None and e.active and id(self.buf) in e.globals_roots:
            e.mutated_globals[id(self.buf)] = self.buf

    def whole(self):
        """C-contiguous view of the complete buffer."""
        if not (isinstance(self.off, int) and self.off == 0 and isinstance(self.buf.size, int)):
            return False
        s = 1
        for n, st in reversed(list(zip(self._shape, self.strides))):
            if not isinstance(n, int):
                return False
            if n != 1 and st != s:
                return False
            s *= n
        return s == self.buf.size

    def contiguous(self):
        s = 1
        for n, st in reversed(list(zip(self._shape, self.strides))):
            if not isinstance(n, int) or not isinstance(st, int):
                return False
            if n != 1 and st != s:
                return False
            s *= n
        return True

    def inverse(self, flat):
        """(is flat index inside this view, its multi-index)."""
        dims = sorted(((s, d, n) for d, (s, n) in enumerate(zip(self.strides, self._shape))
                       if not (isinstance(n, int) and n == 1)), reverse=True)
        idx = [0] * len(self._shape)
        conds = []
        off = self.off
        r = flat - off if not (isinstance(off, int) and off == 0) else flat
        if isinstance(r, int):
            if r < 0:
                return False, idx
        elif V.lo(r) is None or V.lo(r) < 0:
            # align the offset with the lowest stride where possible to stay in bit operations
            conds.append(r >= 0)
            r0 = r
            r = V.ite(r < 0, 0, r)
            if V.kind(r) == "bv":
                r = V.mkbv(V.bvterm(r, V.width(r.lo, r.hi)), 0, r0.hi if r0.hi > 0 else 0)
        last = None
        for s, d, n in dims:
            if not isinstance(s, int) or s <= 0 or (last is not None and isinstance(n, int) and last < s * (n - 1) + 1):
                raise Unsupported("writing through this strided view")
            q, r = split(r, s)
            idx[d] = q
            conds.append(q < n)
            last = s
        conds.append(V.eq(r, 0))
        ok = V.land(*conds)
        idx = [self.clampi(i, n) if not (isinstance(i, int) and i == 0) else i for i, n in zip(idx, self._shape)]
        return ok, idx

    def bulk(self, val):
        if isinstance(val, (NArr, list)):
            v = to_arr(val).frozen()
            while len(v._shape) > len(self._shape) and isinstance(v._shape[0], int) and v._shape[0] == 1:
                v = NArr(v.buf, v._shape[1:], v.strides[1:], v.off)     # numpy drops leading axes of length 1
            k = len(self._shape) - len(v._shape)
            if k < 0:
                raise ValueError("could not broadcast")
            for a, b in zip(self._shape[k:], v._shape):
                if isinstance(a, int) and isinstance(b, int) and b != 1 and a != b:
                    raise ValueError("could not broadcast input array from shape %r into shape %r" % (v._shape, self._shape))
                if not (isinstance(a, int) and isinstance(b, int)):
                    if not builtins.bool(V.eq(a, b)):
                        raise ValueError("could not broadcast input array")
            shape = self._shape
            self.assign(lambda *idx: v.bat(idx, shape))
        else:
            x = wrap(raw(val), self.dt)
            self.assign(lambda *idx: x)

    # -- operations
    def _bin(self, op, o, rev=False):
        if isinstance(o, list):
            o = to_arr(o)
        a = self.frozen()
        if isinstance(o, NArr):
            b = o.frozen()
            dt = result_dt(op, self.dt, o.dt) if op not in CMP else promote(self.dt, o.dt)
            if op in CMP and dt in FLOATS and self.dt not in FLOATS and o.dt not in FLOATS:
                dt = None
            rdt = "bool" if op in CMP else dt
            dom = common_domain([self, o])
            if dom is not None and self.ndim == 1:
                return NArr.lazy_dom(dom, rdt, lambda k: rawop(op, *((a.at(k), b.at(k)) if not rev else (b.at(k), a.at(k))), dt))
            shape = bshape(self._shape, o._shape)
            return NArr.lazy(shape, rdt, lambda *i: rawop(op, *((a.bat(i, shape), b.bat(i, shape)) if not rev else
                                                                (b.bat(i, shape), a.bat(i, shape))), dt))
        if isinstance(o, NpScalar):
            do, ov = o.DT, o.v
        else:
            do = pydt(o)
            if do is None:
                return NotImplemented
            ov = o
        dt = self.scalar_dt(op, do, ov)
        rdt = "bool" if op in CMP else dt
        return self.like(rdt, lambda *i: rawop(op, *((a.at(*i), ov) if not rev else (ov, a.at(*i))), dt))

    def scalar_dt(self, op, do, ov):
        """numpy 1.22 value-based casting of a scalar operand."""
        if op in CMP:
            return self.dt if self.dt in FLOATS or do in FLOATS else None
        kind = {"bool": 0}
        ka = 0 if self.dt == "bool" else 2 if self.dt in FLOATS else 1
        kb = 0 if do == "bool" else 2 if do in FLOATS else 1
        if ka >= kb:
            if kb == 1 and ka == 1:
                l, h = bounds(self.dt)
                vl, vh = V.lo(V.as_int(ov)), V.hi(V.as_int(ov))
                if vl is not None and vh is not None and l <= vl and vh <= h:
                    dt = self.dt
                elif isinstance(V.as_int(ov), int):
                    m = minint(ov)
                    dt = promote(self.dt, m)
                else:
                    raise Unsupported("array operation with a symbolic scalar of unknown range")
                return result_dt(op, dt, dt)
            return result_dt(op, self.dt, self.dt)
        return result_dt(op, self.dt, do if kb == 2 else (minint(ov) if isinstance(ov, int) else do))

    def like(self, dt, f):
        dom = getattr(self.buf, "dom", None)
        if dom is not None and self.ndim == 1:
            return NArr.lazy_dom(dom, dt, f)
        return NArr.lazy(self._shape, dt, f)

    def _ibin(self, op, o):
        r = self._bin(op, o)
        if r is NotImplemented:
            return r
        if r.dt != self.dt and not can_cast(r.dt, self.dt):
            raise TypeError("Cannot cast ufunc output from %s to %s" % (r.dt, self.dt))
        self.bulk(r)
        return self

    def __neg__(self):
        a, dt = self.frozen(), self.dt
        return self.like(dt, lambda *i: rawop("-", 0, a.at(*i), dt))

    def __invert__(self):
        a, dt = self.frozen(), self.dt
        if dt == "bool":
            return self.like(dt, lambda *i: V.neg(a.at(*i)))
        return self.like(dt, lambda *i: wrap(V.arith("-", -1, a.at(*i)), dt))

    def __abs__(self):
        a, dt = self.frozen(), self.dt
        return self.like(dt, lambda *i: wrap(abs(a.at(*i)), dt))

    def __bool__(self):
        if self.size == 1:
            return builtins.bool(mk(self.dt, self.item_raw()))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def item_raw(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return self.at(*([0] * self.ndim))

    def __iter__(self):
        n = self._shape[0]
        if not isinstance(n, int):
            raise Unsupported("native iteration over an array of unknown length")
        for i in range(n):
            yield self[i]

    def symiter(self):
        return ArrIter(self.frozen(), 0)

    def __getattribute__(self, k):
        if k == "symiter":
            n = object.__getattribute__(self, "_shape")[0]
            if isinstance(n, int):
                raise AttributeError(k)
        return object.__getattribute__(self, k)

    def astype(self, dt, copy=True):
        d = dtname(dt)
        a = self.frozen()
        return self.like(d, lambda *i: a.at(*i))

    def copy(self):
        return self.astype(self.dt)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [V.as_int(x) for x in shape]
        total = self.size
        if -1 in shape:
            k = shape.index(-1)
            others = prod([x for i, x in enumerate(shape) if i != k])
            if isinstance(total, int) and isinstance(others, int):
                if others == 0 or total % others:
                    raise ValueError("cannot reshape array")
                shape[k] = total // others
            else:
                q, r = V.divmod_(total, others)
                if not builtins.bool(V.eq(r, 0)):
                    raise ValueError("cannot reshape array")
                shape[k] = q
        elif not builtins.bool(V.eq(prod(shape), total)):
            raise ValueError("cannot reshape array of size %s into shape %s" % (total, tuple(shape)))
        if order == "F":
            a = self.frozen()
            if self.ndim != 1:
                raise Unsupported("F-order reshape")
            def f(*idx):
                acc, st = 0, 1
                for i, n in zip(idx, shape):
                    acc = acc + i * st
                    st = st * n
                return a.at(acc)
            return NArr.lazy(shape, self.dt, f)
        if self.contiguous() or self.ndim == 1 and self.strides[0] == 1:
            return NArr(self.buf, shape, None, self.off)
        a = self.frozen()
        osh = self._shape
        nsh = tuple(shape)

        def g(*idx):
            acc = 0
            for i, n in zip(idx, nsh):
                acc = lin(acc, n, i)
            return a.at(*unflat(acc, osh))
        return NArr.lazy(nsh, self.dt, g)

    def flatten(self):
        a = self.frozen()
        sh = self._shape
        return NArr.lazy((self.size,), self.dt, lambda f: a.at(*unflat(f, sh)))

    def ravel(self):
        return self.reshape(-1)

    def transpose(self):
        return self.T

    def tolist(self):
        if all(isinstance(n, int) for n in self._shape) and self.size <= 70000:
            from .instrument import RList
            if self.ndim == 1:
                return RList([self.at(i) for i in range(self._shape[0])])
            return RList([self[i].tolist() for i in range(self._shape[0])])
        return SymRows(self.frozen())

    def nonzero(self):
        a = self.frozen()
        if all(isinstance(n, int) for n in self._shape):
            vals = [(idx, a.at(*idx)) for idx in all_idx(self._shape)] if self.size <= 300 else None
            if vals is not None and not any(isinstance(v, Sym) for _, v in vals):
                hits = [idx for idx, v in vals if v]
                return tuple(NArr.of([h[d] for h in hits], (len(hits),), I64) for d in range(self.ndim))
        m = a if self.dt == "bool" else a.like("bool", lambda *i: rawop("!=", a.at(*i), 0, self.dt))
        d = Domain.of_mask(m)
        return tuple(NArr.lazy_dom(d, I64, lambda k, j=j: d.idx(k)[j]) for j in range(self.ndim))

    def mean(self, *a, **kw):
        return mk("float64", V.ENG.fresh_real("mean"))

    def sum(self, *a, **kw):
        if isinstance(self.size, int) and self.size <= 512 and not a and not kw:
            dt = I64 if self.dt == "bool" or (self.dt in INFO and INFO[self.dt][1]) else (
                "uint64" if self.dt in INFO else self.dt)
            r = 0
            for idx in all_idx(self._shape):
                r = rawop("+", r, self.at(*idx), dt)
            return mk(dt, r)
        raise Unsupported("sum of a large array")

    def all(self):
        return np_all(self)

    def any(self):
        return ~mk("bool", boolval(np_all(~(self if self.dt == "bool" else (self != 0)))))

    def max(self):
        return np_max(self)

    def min(self):
        return -np_max(-self) if self.dt != "bool" else np_all(self)

    def fill(self, v):
        self.bulk(v)

    def tobytes(self):
        raise Unsupported("tobytes")

    @staticmethod
    def lazy_dom(dom, dt, f):
        b = Buf(dom.n, dt, Fn(lambda k: wrap(f(k), dt)))
        b.dom = dom
        return NArr(b, (dom.n,))


_mk_ops(NArr, "_bin")
for _n, _op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("and", "&"), ("or", "|"), ("xor", "^"),
                ("lshift", "<<"), ("rshift", ">>"), ("floordiv", "//"), ("mod", "%")):
    setattr(NArr, "__i%s__" % _n, (lambda self, o, op=_op: self._ibin(op, o)))


def add_off(off, i, s):
    if isinstance(i, int) and isinstance(s, int):
        return off + i * s if not (isinstance(off, int) and off == 0) else i * s
    if isinstance(s, int) and isinstance(off, int) and off == 0:
        return lin(i, s, 0) if s > 1 else i
    if isinstance(s, int) and isinstance(off, Sym) and s == 1:
        # off multiple of a power of two larger than i's range: concatenate
        h = V.hi(i)
        if h is not None and V.lo(i) >= 0 and V.kind(off) == "bv":
            k = max(h.bit_length(), 1)
            q, r = split(off, 1 << k)
            if isinstance(r, int) and r == 0:
                return lin(q, 1 << k, i)
    return off + i * s


def can_cast(a, b):
    ka = 0 if a == "bool" else 1 if a in INFO else 2
    kb = 0 if b == "bool" else 1 if b in INFO else 2
    if ka == 1 and kb == 1:
        # same_kind: unsigned->signed allowed; signed->unsigned not
        return not (INFO[a][1] and not INFO[b][1])
    return ka <= kb


def minint(v):
    v = int(v)
    for d in ("uint8", "uint16", "uint32", "uint64") if v >= 0 else ("int8", "int16", "int32", "int64"):
        l, h = bounds(d)
        if l <= v <= h:
            return d
    return "float64"


def all_idx(shape):
    import itertools
    return itertools.product(*[range(n) for n in shape])


def unflat(flat, shape):
    if len(shape) == 1:
        return (flat,)
    idx = []
    f = flat
    for n in reversed(shape[1:]):
        f, r = split(f, n)
        idx.insert(0, r)
    idx.insert(0, f)
    return tuple(idx)


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = x
            elif isinstance(d, int) and isinstance(x, int):
                if d != x:
                    raise ValueError("operands could not be broadcast together")
            elif d is not x and not V.ENG.entailed(V.boolterm(V.eq(d, x))):
                raise Unsupported("broadcast of arrays of unknown sizes")
        out.append(d)
    return tuple(out)


def common_domain(arrs):
    ds = [getattr(a.buf, "dom", None) for a in arrs]
    if ds and ds[0] is not None and all(d is ds[0] for d in ds):
        return ds[0]
    if any(d is not None for d in ds):
        ds = [d for d in ds if d is not None]
        if len(ds) == len(arrs):
            raise Unsupported("arrays compressed by different masks")
    return None


class Domain(object):
    """Enumeration (in index order) of the positions where a mask holds; its length is unknown."""

    def __init__(self, mask):
        self.mask = mask
        e = V.ENG
        self.n = e.fresh_int("count", 0, prod(mask.shape), bv=True)
        self.cells = {}

    @staticmethod
    def of_mask(m):
        e = V.ENG
        cache = e.__dict__.setdefault("domains", {})
        key = (id(m.buf.content), e.pathno, str(m.shape))
        if key in cache and cache[key][0] is m.buf.content:
            return cache[key][1]
        d = Domain(m)
        cache[key] = (m.buf.content, d)
        return d

    def idx(self, k):
        """Position of the k-th hit: a fresh position where the mask holds (one per distinct k)."""
        key = ikey(k)
        if key in self.cells:
            return self.cells[key][0]
        e = V.ENG
        c = tuple(e.fresh_int("hit%d" % d, 0, n - 1, bv=True) for d, n in enumerate(self.mask.shape))
        self.cells[key] = (c, k)
        e.assume(V.boolterm(self.mask.at(*c)))
        for kk, (c2, k2) in list(self.cells.items()):
            if kk != key:
                # strictly increasing enumeration
                a = unflat_inv(c, self.mask.shape)
                b = unflat_inv(c2, self.mask.shape)
                e.assume(V.boolterm(V.eq(V.as_int(k) < k2, a < b)))
                e.assume(V.boolterm(V.eq(V.eq(k, k2), V.eq(a, b))))
        return c


def unflat_inv(c, shape):
    acc = 0
    for i, n in zip(c, shape):
        acc = lin(acc, n, i)
    return acc


class ArrIter(object):
    """Iteration over an array of unknown length."""

    def __init__(self, arr, i):
        self.arr, self.i = arr, i

    def advance(self, act):
        V.ENG.symdec += 1
        if not builtins.bool(V.mkbool(V.boolterm(self.i < self.arr.shape[0]))):
            return False
        act.value = self.arr[self.i] if self.arr.ndim > 1 else mk(self.arr.dt, self.arr.at(self.i))
        self.i = self.i + 1
        return True

    def __walk__(self, path, slots, sig, node):
        slots[path + ("i",)] = EN.Slot(self.i, "leaf", lambda v: setattr(self, "i", v))


class SymRows(object):
    """Rows of an array of unknown length as Python lists (result of tolist())."""

    def __init__(self, arr, f=None):
        self.arr, self.f = arr, f

    def symmap(self, f):
        g = self.f
        return SymRows(self.arr, (lambda r: f(g(r))) if g else f)

    def __symlen__(self):
        return self.arr.shape[0]

    def row(self, k):
        from .instrument import RList
        if self.arr.ndim == 1:
            r = self.arr.at(k)
        else:
            r = RList([self.arr.at(k, j) for j in range(self.arr.shape[1])])
        return self.f(r) if self.f else r

    def dom(self):
        return getattr(self.arr.buf, "dom", None)

    def __iter__(self):
        raise Unsupported("native iteration over rows of an array of unknown length")


def to_arr(x):
    if isinstance(x, NArr):
        return x
    if isinstance(x, (list, tuple)):
        xs = list(x)
        if xs and isinstance(xs[0], (list, tuple)):
            rows = [to_arr(r) for r in xs]
            dt = rows[0].dt
            for r in rows:
                dt = promote(dt, r.dt)
            data = [r.at(i) for r in rows for i in range(r.shape[0])]
            return NArr.of(data, (len(rows), rows[0].shape[0]), dt)
        dt = None
        for v in xs:
            d = v.DT if isinstance(v, NpScalar) else pydt(v)
            if d is None:
                raise Unsupported("array of %r" % type(v))
            dt = d if dt is None else promote(dt, d)
        return NArr.of([raw(v) for v in xs], (len(xs),), dt or "float64")
    if isinstance(x, NpScalar):
        return NArr.of([x.v], (), x.DT)
    if isinstance(x, (int, builtins.float, Sym)):
        return NArr.of([x], (), pydt(x))
    raise Unsupported("array from %r" % type(x))


class SymAll(object):
    """Truth of 'every element satisfies the mask', decided by proof on a fresh index."""

    def __init__(self, mask, negated=False):
        self.mask, self.neg_ = mask, negated

    def decide(self):
        e = V.ENG
        m = self.mask
        idx = [n - 1 if n == 1 else e.fresh_int("any%d" % d, 0, n - 1, bv=isinstance(n, int))
               for d, n in enumerate(m.shape)]
        v = m.at(*idx)
        t = V.boolterm(v)
        if e.entailed(t):
            return True
        # witness of a failing element, or unknown: fork
        if not e.branch(t):
            return False
        raise Unsupported("np.all over an unknown array is neither proved nor refuted everywhere")

    def __bool__(self):
        r = self.decide()
        return r != self.neg_

    def negated(self):
        return SymAll(self.mask, not self.neg_)

    def __invert__(self):
        return self.negated()


def np_all(x, *a, **kw):
    if isinstance(x, NpScalar):
        return mk("bool", wrap(x.v, "bool"))
    if isinstance(x, (bool, SymBool)):
        return x
    x = to_arr(x)
    if x.dt != "bool":
        x = x != 0
    m = x.frozen()
    if isinstance(m.size, int) and m.size <= 16:
        return mk("bool", V.land(*[m.at(*i) for i in all_idx(m.shape)]))
    if isinstance(m.buf.content, Conc):
        return mk("bool", builtins.all(m.at(*i) for i in all_idx(m.shape)))
    return SymAll(m)


class SymCount(object):
    """count_nonzero of an unknown array; only comparison with zero is supported."""

    def __init__(self, mask):
        self.mask = mask

    def _zero(self, o):
        if not (isinstance(o, int) and o == 0):
            raise Unsupported("count of an unknown array compared with %r" % (o,))
        return SymAll(~self.mask)

    def __eq__(self, o):
        return self._zero(o)

    def __ne__(self, o):
        return self._zero(o).negated()

    def __gt__(self, o):
        return self._zero(o).negated()

    def __bool__(self):
        return builtins.bool(self._zero(0).negated())

    __hash__ = None


def boolval(x):
    return x.v if isinstance(x, NpScalar) else builtins.bool(x)


def count_nonzero(x, **kw):
    x = to_arr(x)
    m = x if x.dt == "bool" else x != 0
    if isinstance(m.size, int):
        if m.size <= 16 or isinstance(x.frozen().buf.content, Conc):
            r = 0
            for i in all_idx(m.shape):
                r = r + V.as_int(m.at(*i))
            return r
    dom = getattr(m.buf, "dom", None)
    if dom is not None:
        return DomCount(m, dom)
    return SymCount(m.frozen())


class DomCount(SymCount):
    """count over a masked selection: quantify over the cells of the mask."""

    def __init__(self, m, dom):
        self.m, self.dom_ = m, dom

    def _zero(self, o):
        if not (isinstance(o, int) and o == 0):
            raise Unsupported("count compared with %r" % (o,))
        return DomNone(self.m, self.dom_)


class DomNone(SymAll):
    def __init__(self, m, dom, negated=False):
        self.m, self.dom_, self.neg_ = m, dom, negated

    def negated(self):
        return DomNone(self.m, self.dom_, not self.neg_)

    def decide(self):
        e = V.ENG
        k = e.fresh_int("hitk", 0, prod(self.dom_.mask.shape), bv=True)
        if not e.feasible(V.boolterm(k < self.dom_.n)):
            return True
        e.solver.push()
        npc = len(e.pc)
        try:
            e.assume(V.boolterm(k < self.dom_.n))
            t = V.boolterm(self.m.at(k))
            ok = e.entailed(z3.Not(t))
        finally:
            e.solver.pop()
            del e.pc[npc:]
        if ok:
            return True
        c = self.dom_.cells.pop(ikey(k), None)
        if e.branch(z3.And(V.boolterm(k < self.dom_.n), V.boolterm(self.dom_.mask.at(*c[0])), t)):
            return False
        raise Unsupported("count_nonzero over an unknown array is neither proved zero nor refuted everywhere")


def np_max(x):
    x = to_arr(x)
    if isinstance(x.size, int) and x.size <= 512:
        r = None
        for i in all_idx(x.shape):
            v = x.at(*i)
            r = v if r is None else V.ite(V.mkbool(V.boolterm(v > r)) if isinstance(v, Sym) or isinstance(r, Sym)
                                          else v > r, v, r)
        return mk(x.dt, r)
    e = V.ENG
    k = [e.fresh_int("argmax", 0, n - 1) for n in x.shape]
    return mk(x.dt, x.at(*k))


# ------------------------------------------------------------------------------------------ module
def shape_of(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(V.as_int(x) for x in shape)
    return (V.as_int(shape),)


def full(shape, v, dtype=None):
    sh = shape_of(shape)
    if dtype is None:
        dt = v.DT if isinstance(v, NpScalar) else pydt(v)
    else:
        dt = dtname(dtype)
    x = wrap(raw(v), dt)
    size = prod(sh)
    if isinstance(size, int) and size <= 20000:
        b = Buf(size, dt, Conc([x] * size))
        if V.ENG is not None and V.ENG.active:
            b.own = b.content if size <= 64 else None
    else:
        b = Buf(size, dt, Fn(lambda i: x))
    return NArr(b, sh)


def np_zeros(shape, dtype=None):
    return full(shape, 0, dtype or "float64")


def np_empty(shape, dtype=None):
    sh = shape_of(shape)
    dt = dtname(dtype)
    if V.ENG is None or not V.ENG.active:
        return full(shape, 0, dt)
    return NArr(Buf(prod(sh), dt, Fresh("uninit", prod(sh), dt)), sh)


def fresh_array(name, shape, dt):
    """Array of unknown content."""
    return NArr(Buf(prod(shape), dt, Fresh(name, prod(shape), dt), name), shape)


class NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, NArr)

    def __call__(cls, shape, dtype=None, **kw):
        return np_empty(shape, dtype)


class ndarray(metaclass=NdMeta):
    pass


def np_array(x, dtype=None):
    a = to_arr(x)
    return a.astype(dtype) if dtype is not None else a.copy()


def arange(*a, **kw):
    dt = kw.get("dtype")
    fl = [isinstance(raw(x), builtins.float) for x in a]
    if any(fl):
        if not all(isinstance(raw(x), (int, builtins.float)) and raw(x) == builtins.int(raw(x)) for x in a):
            raise Unsupported("arange over fractions")
        if dt is None:
            raise Unsupported("arange of floats")
        a = [builtins.int(raw(x)) for x in a]       # whole numbers: the same elements
    a = [V.as_int(x) for x in a]
    start, stop = (0, a[0]) if len(a) == 1 else a[:2]
    step = a[2] if len(a) > 2 else 1
    d = dtname(dt) if dt is not None else I64
    if all(isinstance(x, int) for x in (start, stop, step)):
        r = range(start, stop, step)
        if len(r) <= 20000:
            return NArr.of(list(r), (len(r),), d)
        return NArr(Buf(len(r), d, Fn(lambda i: wrap(i * step + start, d))), (len(r),))
    if step != 1:
        raise Unsupported("symbolic arange")
    n = stop - start
    return NArr.lazy((n,), d, lambda i: i + start)


def roll(a, k, axis=None):
    a = to_arr(a)
    s = a.frozen()
    sh = a.shape
    if axis is None:
        f = a.flatten()
        n = f.shape[0]
        r = roll(f, k, 0)
        return r.reshape(sh)
    axis = axis % len(sh)
    n = sh[axis]
    if not isinstance(k, int) or not isinstance(n, int):
        raise Unsupported("symbolic roll")
    k = k % n

    def f(*idx):
        i = idx[axis]
        if isinstance(i, int):
            j = (i - k) % n
        elif n & (n - 1) == 0:
            j = (i - k) & (n - 1)
        else:
            j = V.ite(i >= k, i - k, i - k + n)
            j = NArr.clampi(j, n)
        return s.at(*(idx[:axis] + (j,) + idx[axis + 1:]))
    return NArr.lazy(sh, a.dt, f)


def stack(arrs, axis=0):
    arrs = [to_arr(a) for a in arrs]
    dt = arrs[0].dt
    for a in arrs:
        dt = promote(dt, a.dt)
    fs = [a.frozen() for a in arrs]
    dom = None
    for a in arrs:
        dom = dom or getattr(a.buf, "dom", None)
    n = arrs[0].shape[0]
    for a in arrs[1:]:
        if not builtins.bool(V.eq(a.shape[0], n)):
            raise ValueError("all input arrays must have the same shape")
    if axis != 0 or any(a.ndim != 1 for a in arrs):
        raise Unsupported("np.stack of this form")

    def f(r, k):
        if isinstance(r, int):
            return fs[r].at(k)
        v = fs[-1].at(k)
        for j in range(len(fs) - 2, -1, -1):
            v = V.ite(V.eq(r, j), fs[j].at(k), v)
        return v
    return StackArr.make(fs, dom, n, dt)


class StackArr(NArr):
    """Rows stacked on axis 0, row length possibly unknown; kept as rows."""

    @staticmethod
    def make(rows, dom, n, dt, transposed=False):
        s = StackArr(Buf(0, dt, Fn(lambda i: 0)), (0, 0))
        s.rows, s.dom_, s.n_, s.tr = rows, dom, n, transposed
        s.buf.dom = dom
        s._shape = (n, len(rows)) if transposed else (len(rows), n)
        return s

    def frozen(self):
        return self

    def at(self, i, j):
        r, k = (j, i) if self.tr else (i, j)
        if isinstance(r, int):
            return wrap(self.rows[r].at(k), self.dt)
        v = wrap(self.rows[-1].at(k), self.dt)
        for q in range(len(self.rows) - 2, -1, -1):
            v = V.ite(V.eq(r, q), wrap(self.rows[q].at(k), self.dt), v)
        return v

    @property
    def T(self):
        return StackArr.make(self.rows, self.dom_, self.n_, self.dt, not self.tr)

    def tolist(self):
        if isinstance(self.n_, int):
            from .instrument import RList
            return RList([RList([self.at(i, j) for j in range(self.shape[1])]) for i in range(self.shape[0])])
        if not self.tr:
            raise Unsupported("tolist of long rows")
        return SymRows(self)

    def __getitem__(self, k):
        if isinstance(k, int) and not self.tr:
            return self.rows[k]
        raise Unsupported("indexing a stacked array")


def clip(a, l, h):
    if isinstance(a, NArr):
        s = a.frozen()
        dt = a.dt
        lr, hr = raw(l), raw(h)
        if dt in INFO and not (isinstance(lr, int) and isinstance(hr, int)):
            raise Unsupported("np.clip bounds")

        def f(*i):
            v = s.at(*i)
            v = V.ite(v < lr, lr, v) if isinstance(v, Sym) else max(v, lr)
            return V.ite(v > hr, hr, v) if isinstance(v, Sym) else min(v, hr)
        return a.like(dt, f)
    v = raw(a)
    v = V.ite(v < l, l, v)
    return mk(a.DT if isinstance(a, NpScalar) else pydt(a), V.ite(v > h, h, v))


def array_equal(a, b):
    a, b = to_arr(a), to_arr(b)
    if len(a.shape) != len(b.shape):
        return False
    for x, y in zip(a.shape, b.shape):
        if not builtins.bool(V.eq(x, y)):
            return False
    return np_all(a == b)


def where(c, a=None, b=None):
    if a is None:
        return c.nonzero()
    c = c.frozen()
    fa = a.frozen() if isinstance(a, NArr) else None
    fb = b.frozen() if isinstance(b, NArr) else None
    da = a.dt if fa else (a.DT if isinstance(a, NpScalar) else pydt(a))
    db = b.dt if fb else (b.DT if isinstance(b, NpScalar) else pydt(b))
    if fa is not None and fb is None and db in INFO and da in INFO:
        db = da
    if fb is not None and fa is None and db in INFO and da in INFO:
        da = db
    sh = c.shape
    return NArr.lazy(sh, promote(da, db), lambda *i: V.ite(
        V.mkbool(V.boolterm(c.at(*i))), fa.bat(i, sh) if fa else raw(a), fb.bat(i, sh) if fb else raw(b)))


def randint(low, high=None, size=None, dtype=None):
    e = V.ENG
    if high is None:
        low, high = 0, low
    if size is None:
        return mk(I64, e.fresh_int("rand", low, high - 1, bv=True)).v
    n = V.as_int(size)
    dt = dtname(dtype) if dtype is not None else I64
    u = e.name("randint")

    def f(k):
        return e.fresh_int(u + "_elt", low, high - 1, bv=True)
    return NArr(Buf(n, dt, Fn(f)), (n,))


def np_abs(x):
    return abs(x) if isinstance(x, (NArr, NpScalar)) else abs(x)


def make_module(**extra):
    m = types.ModuleType("numpy")
    for d in list(INFO) + list(FLOATS):
        setattr(m, d if d != "bool" else "bool_", SC[d])
    m.bool8 = SC["bool"]
    m.bool = builtins.bool
    m.int = builtins.int
    m.float = builtins.float
    m.intp = m.int_ = m.longlong = SC["int64"]
    m.uint = m.uintp = SC["uint64"]
    m.float_ = m.double = SC["float64"]
    m.zeros, m.empty, m.full, m.ndarray, m.array, m.asarray = np_zeros, np_empty, full, ndarray, np_array, to_arr
    m.ones = lambda shape, dtype=None: full(shape, 1, dtype or "float64")
    m.zeros_like = lambda a, dtype=None: full(a.shape, 0, dtype or a.dt)
    m.empty_like = lambda a, dtype=None: np_empty(a.shape, dtype or a.dt)
    m.full_like = lambda a, v, dtype=None: full(a.shape, v, dtype or a.dt)
    m.arange, m.roll, m.stack, m.clip, m.array_equal, m.where = arange, roll, stack, clip, array_equal, where
    m.all, m.count_nonzero, m.max, m.amax, m.abs, m.absolute = np_all, count_nonzero, np_max, np_max, np_abs, np_abs
    m.any = lambda x: to_arr(x).any()
    m.nonzero = lambda a: a.nonzero()
    m.transpose = lambda a: (a if isinstance(a, NArr) else stack(a)).T
    m.reshape = lambda a, s: a.reshape(s)
    m.copy = lambda a: a.copy()
    m.dtype = Dtype
    m.integer = NpScalar
    m.random = types.ModuleType("numpy.random")
    m.random.randint = randint
    m.inf = builtins.float("inf")
    m.nan = builtins.float("nan")
    m.newaxis = None
    for o, n in (("+", "add"), ("-", "subtract"), ("*", "multiply"), ("&", "bitwise_and"), ("|", "bitwise_or"),
                 ("^", "bitwise_xor"), ("<<", "left_shift"), (">>", "right_shift"), ("==", "equal"),
                 ("!=", "not_equal"), ("<", "less"), ("<=", "less_equal"), (">", "greater"), (">=", "greater_equal")):
        setattr(m, n, lambda a, b, o=o: (a._bin(o, b) if isinstance(a, (NArr, NpScalar)) else to_arr(b)._bin(o, a, True)))
    m.logical_and, m.logical_or, m.logical_not = (lambda a, b: a & b), (lambda a, b: a | b), (lambda a: ~a)
    for k, v in extra.items():
        setattr(m, k, v)
    return m


# ------------------------------------------------------------------------------------------ element-wise invariants
class ElemInv(object):
    """Invariant over every cell of a group of arrays of one shape.

    arrays: () -> {name: NArr (whole arrays)}; inv(get, idx) -> [(name, bool)] where get[name](*idx) reads.
    Assumed per index when an unknown content of the group is read, proved for a fresh index at loop heads.
    What inv depends on besides the arrays must come from snap(), which is evaluated when the unknown content
    appears (inv is applied to it later, when the rest of the state has moved on)."""

    def __init__(self, arrays, inv, shape, snap=None):
        self.arrays, self.shape, self.snap = arrays, shape, snap or (lambda: None)
        self.inv = inv if snap else lambda get, idx, s: inv(get, idx)

    def reset(self):
        arrs = self.arrays()
        fro = {k: a.frozen() for k, a in arrs.items()}
        done = set()
        shape, inv, snap = self.shape, self.inv, self.snap()
        e = V.ENG

        def hook(flat):
            k = ikey(flat)
            if k in done:
                return
            done.add(k)
            idx = unflat(flat, shape)

            def getter(a):
                # the cell itself is read under its own index term
                return lambda *ix: a.buf.content.get(flat) if len(ix) == len(idx) and all(
                    x is y for x, y in zip(ix, idx)) and a.contiguous() and a.off == 0 else a.at(*ix)
            for name, t in inv({n: getter(a) for n, a in fro.items()}, idx, snap):
                e.assume(V.boolterm(t))
        for a in fro.values():
            c = a.buf.content
            if isinstance(c, Fresh) and hook not in c.hooks:
                c.hooks.append(hook)
                for k, (v, i) in list(c.memo.items()):
                    hook(i)

    def check(self, name):
        e = V.ENG
        idx = tuple(e.fresh_int("cell%d" % d, 0, n - 1, bv=True) for d, n in enumerate(self.shape))
        arrs = self.arrays()
        for n, t in self.inv({k: a.at for k, a in arrs.items()}, idx, self.snap()):
            e.prove("%s: every cell: %s" % (name, n), t)


class Stamp(object):
    """Array `arr` that a contract keeps in step with other arrays: nobody else may write any of them."""

    def __init__(self, arr, others, label):
        self.arr, self.others, self.label = arr, others, label
        self.mark = None
        self.reset()

    def now(self):
        a = self.arr()
        return [a, a.buf.content] + [x for o in self.others() for x in (o, o.buf.content)]

    def reset(self):
        e, old = V.ENG, self.mark
        self.arr().buf.derive = self
        self.mark = self.now()
        e.log(lambda: setattr(self, "mark", old))

    def check(self, name):
        n, m = self.now(), self.mark
        V.ENG.prove("%s: %s" % (name, self.label), len(n) == len(m) and all(x is y for x, y in zip(n, m)))
