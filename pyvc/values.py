"""Symbolic Python values: exact integers (interval-tracked bit vectors or z3 Int), booleans, reals, formatted strings.

Integers are mathematical: a bit-vector term is always wide enough for its interval, so nothing wraps.
Branching on a symbolic boolean asks the engine (ENG) for a decision."""
import fractions
import z3

ENG = None          # current engine, set by engine.Engine.activate


class Unsupported(Exception):
    """The code uses something outside the verified subset: the obligation stays undecided."""


def simp(t):
    return z3.simplify(t)


class Sym(object):
    """Marker base class of symbolic values."""
    __slots__ = ()


def is_sym(v):
    return isinstance(v, Sym)


# ----------------------------------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, boolterm(o))) if is_boolish(o) else as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, boolterm(o))) if is_boolish(o) else as_int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, boolterm(o))) if is_boolish(o) else as_int(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~as_int(self)

    def __eq__(self, o):
        if is_boolish(o):
            return mkbool(self.t == boolterm(o))
        if isinstance(o, (int, Sym)):
            return as_int(self) == o
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = object.__hash__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "<bool %s>" % self.t

    def __format__(self, spec):
        return "?"


def _bool_arith(name):
    def f(self, o):
        return getattr(as_int(self), name)(o)
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__lshift__", "__rlshift__",
           "__rshift__", "__rrshift__", "__lt__", "__le__", "__gt__", "__ge__", "__mod__", "__floordiv__",
           "__neg__", "__truediv__", "__rtruediv__"):
    if _n == "__neg__":
        SymBool.__neg__ = lambda self: -as_int(self)
    else:
        setattr(SymBool, _n, _bool_arith(_n))


def is_boolish(o):
    return isinstance(o, (bool, SymBool))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def boolterm(o):
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if isinstance(o, SymBool):
        return o.t
    if hasattr(o, "__symbool__"):
        return o.__symbool__()
    if isinstance(o, z3.BoolRef):
        return o
    if isinstance(o, (int, SymInt)):
        return boolterm(o != 0)
    raise Unsupported("boolean of %r" % type(o))


def neg(b):
    if isinstance(b, bool):
        return not b
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.t))
    if b is NotImplemented:
        return b
    return b.negated()


def land(*bs):
    return mkbool(z3.And([boolterm(b) for b in bs])) if bs else True


def lor(*bs):
    return mkbool(z3.Or([boolterm(b) for b in bs])) if bs else False


def implies(a, b):
    return lor(neg(a) if not isinstance(a, z3.BoolRef) else z3.Not(a), b)


def ite(c, a, b):
    """Symbolic if-then-else on integers or booleans."""
    if isinstance(c, z3.BoolRef):
        c = mkbool(c)
    if isinstance(c, bool):
        return a if c else b
    if is_boolish(a) and is_boolish(b):
        return mkbool(z3.If(c.t, boolterm(a), boolterm(b)))
    if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
        return SymReal(z3.If(c.t, realterm(a), realterm(b)))
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if kind(a) == "int" or kind(b) == "int":
        return SymInt(z3.If(c.t, intterm(a), intterm(b)), mn(lo(a), lo(b)), mx(hi(a), hi(b)))
    l, h = min(lo(a), lo(b)), max(hi(a), hi(b))
    w = width(l, h)
    return mkbv(z3.If(c.t, bvterm(a, w), bvterm(b, w)), l, h)


# ----------------------------------------------------------------------------------------- integers
def width(l, h):
    """Bits of a signed bit vector that holds every value of [l, h]."""
    return max(1, max(h, 0).bit_length(), (-l - 1).bit_length() if l < 0 else 0) + 1


def lo(v):
    return v if isinstance(v, int) else v.lo


def hi(v):
    return v if isinstance(v, int) else v.hi


def mn(a, b):
    return None if a is None or b is None else min(a, b)


def mx(a, b):
    return None if a is None or b is None else max(a, b)


def kind(v):
    if isinstance(v, int):
        return "const"
    return "bv" if z3.is_bv(v.t) else "int"


class SymInt(Sym):
    """A mathematical integer; t is a signed bit vector wide enough for [lo, hi], or a z3 Int."""
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, l=None, h=None):
        self.t, self.lo, self.hi = t, l, h

    def __repr__(self):
        return "<int %s>" % str(self.t)[:80]

    def __format__(self, spec):
        return "?"

    __hash__ = object.__hash__

    def __bool__(self):
        if self.lo is not None and self.lo > 0 or self.hi is not None and self.hi < 0:
            return True
        return bool(self != 0)

    def __index__(self):
        return ENG.concretize(self)

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float() of a symbolic integer outside the float shim")

    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        return arith("*", o, self)

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self < 0, -self, self)

    def __invert__(self):
        return arith("-", -1, self)

    def __floordiv__(self, o):
        return divmod_(self, o)[0]

    def __rfloordiv__(self, o):
        return divmod_(o, self)[0]

    def __mod__(self, o):
        return divmod_(self, o)[1]

    def __rmod__(self, o):
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        return divmod_(self, o)

    def __truediv__(self, o):
        return SymReal(realterm(self)) / o

    def __rtruediv__(self, o):
        return SymReal(realterm(o)) / self

    def __and__(self, o):
        return bitop("&", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bitop("|", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bitop("^", self, o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return shift("<<", self, o)

    def __rlshift__(self, o):
        return shift("<<", o, self)

    def __rshift__(self, o):
        return shift(">>", self, o)

    def __rrshift__(self, o):
        return shift(">>", o, self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, b):
        if b == 2:
            return shift("<<", 1, self)
        raise Unsupported("symbolic exponent")

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return neg(compare("==", self, o))

    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic integer")


def mkbv(t, l, h):
    """Integer from a signed bit-vector term known to lie in [l, h]; shrinks to the interval's width."""
    if l == h:
        return l
    w = width(l, h)
    n = t.size()
    if n > w:
        t = z3.Extract(w - 1, 0, t)
    elif n < w:
        t = z3.SignExt(w - n, t)
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t, l, h)


def from_ubv(t):
    """Integer value of an unsigned bit-vector term."""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    n = t.size()
    return SymInt(z3.ZeroExt(1, t), 0, (1 << n) - 1)


def from_sbv(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    n = t.size()
    return SymInt(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)


def mkint(t, l=None, h=None):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t, l, h)


def as_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SymBool):
        return mkbv(z3.If(v.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    if isinstance(v, (int, SymInt)):
        return v
    if hasattr(v, "__symint__"):
        return v.__symint__()
    raise Unsupported("integer of %r" % type(v))


def bvterm(v, w):
    """Signed bit-vector term of v, exactly w bits (w must be wide enough)."""
    v = as_int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if kind(v) == "int":
        return z3.Int2BV(v.t, w)
    n = v.t.size()
    if n == w:
        return v.t
    if n < w:
        return z3.SignExt(w - n, v.t)
    return z3.Extract(w - 1, 0, v.t)


def intterm(v):
    v = as_int(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if kind(v) == "int":
        return v.t
    if v.lo is not None and v.lo >= 0:
        return z3.BV2Int(v.t, False)
    return z3.BV2Int(v.t, True)


def foreign(o):
    return hasattr(o, "__np_scalar__") or hasattr(o, "__np_array__")


def arith(op, a, b):
    if isinstance(a, (float, SymReal)) or isinstance(b, (float, SymReal)):
        return realop(op, a, b)
    if foreign(a) or foreign(b) or not (isinstance(a, (int, Sym)) and isinstance(b, (int, Sym))):
        return NotImplemented
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a + b if op == "+" else a - b if op == "-" else a * b
    if kind(a) == "int" or kind(b) == "int":
        x, y = intterm(a), intterm(b)
        la, ha, lb, hb = lo(a), hi(a), lo(b), hi(b)
        if op == "+":
            return mkint(x + y, None if la is None or lb is None else la + lb,
                         None if ha is None or hb is None else ha + hb)
        if op == "-":
            return mkint(x - y, None if la is None or hb is None else la - hb,
                         None if ha is None or lb is None else ha - lb)
        return mkint(x * y)
    if op == "+":
        l, h = lo(a) + lo(b), hi(a) + hi(b)
    elif op == "-":
        l, h = lo(a) - hi(b), hi(a) - lo(b)
    else:
        c = [x * y for x in (lo(a), hi(a)) for y in (lo(b), hi(b))]
        l, h = min(c), max(c)
    w = max(width(l, h), width(lo(a), hi(a)), width(lo(b), hi(b)))
    if w > 400:
        raise Unsupported("integer too wide")
    x, y = bvterm(a, w), bvterm(b, w)
    return mkbv(x + y if op == "+" else x - y if op == "-" else x * y, l, h)


def divmod_(a, b):
    if isinstance(a, (float, SymReal)) or isinstance(b, (float, SymReal)):
        raise Unsupported("floor division of reals")
    if foreign(a) or foreign(b):
        return NotImplemented, NotImplemented
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return divmod(a, b)
    if not isinstance(b, int):
        if b.lo is None or b.lo <= 0:
            if bool(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if not ENG.entailed(boolterm(b > 0)):
                raise Unsupported("division by a possibly negative symbolic integer")
        if kind(a) != "int" and kind(b) != "int" and lo(a) >= 0:
            w = max(width(lo(a), hi(a)), width(lo(b), hi(b)))
            x, y = bvterm(a, w), bvterm(b, w)
            return mkbv(z3.UDiv(x, y), 0, hi(a)), mkbv(z3.URem(x, y), 0, max(min(hi(a), hi(b) - 1), 0))
        x, y = intterm(a), intterm(b)
        return mkint(x / y), mkint(x % y, 0, None)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if b < 0:
        raise Unsupported("division by a negative constant")
    if b == 1:
        return a, 0
    if kind(a) == "int":
        l, h = a.lo, a.hi
        return (mkint(a.t / b, None if l is None else l // b, None if h is None else h // b), mkint(a.t % b, 0, b - 1))
    l, h = a.lo, a.hi
    if b & (b - 1) == 0:
        k = b.bit_length() - 1
        q = shift(">>", a, k)
        r = bitop("&", a, b - 1)
        return q, r
    w = width(l, h) if h >= b else width(min(l, 0), b)
    x = bvterm(a, w)
    if l >= 0:
        return mkbv(z3.UDiv(x, z3.BitVecVal(b, w)), l // b, h // b), mkbv(z3.URem(x, z3.BitVecVal(b, w)), 0, min(h, b - 1))
    w += 1
    x = bvterm(a, w)
    r = z3.SRem(x, z3.BitVecVal(b, w))
    r = z3.If(r < 0, r + b, r)
    q = (x - r) / z3.BitVecVal(b, w)
    return mkbv(q, l // b, h // b), mkbv(r, 0, b - 1)


def bitop(op, a, b):
    if foreign(a) or foreign(b) or not (isinstance(a, (int, Sym)) and isinstance(b, (int, Sym))):
        return NotImplemented
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a & b if op == "&" else a | b if op == "|" else a ^ b
    if kind(a) == "int" or kind(b) == "int":
        if kind(a) == "const":
            a, b = b, a
        if op == "&" and isinstance(b, int) and b >= 0 and b & (b + 1) == 0:
            return mkint(a.t % (b + 1), 0, b)
        if a.lo is not None and a.hi is not None and kind(b) != "int":
            w = max(width(a.lo, a.hi), width(lo(b), hi(b)))
            return bitop(op, mkbv(z3.Int2BV(a.t, w), a.lo, a.hi), b)
        if op == "&" and isinstance(b, int) and b >= 0:
            n = b.bit_length()
            return bitop(op, mkbv(z3.ZeroExt(1, z3.Int2BV(a.t, n)), 0, (1 << n) - 1), b)
        raise Unsupported("bit operation on an unbounded integer")
    w = max(width(lo(a), hi(a)), width(lo(b), hi(b)))
    x, y = bvterm(a, w), bvterm(b, w)
    if op == "&":
        if lo(a) >= 0 and lo(b) >= 0:
            l, h = 0, min(hi(a), hi(b))
        elif lo(a) >= 0:
            l, h = 0, hi(a)
        elif lo(b) >= 0:
            l, h = 0, hi(b)
        else:
            l, h = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mkbv(x & y, l, h)
    if lo(a) >= 0 and lo(b) >= 0:
        l, h = 0, (1 << max(hi(a).bit_length(), hi(b).bit_length())) - 1
    else:
        l, h = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mkbv(x | y if op == "|" else x ^ y, l, h)


def shift(op, a, b):
    if foreign(a) or foreign(b):
        return NotImplemented
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a << b if op == "<<" else a >> b
    if isinstance(b, int):
        if b < 0:
            raise ValueError("negative shift count")
        if op == "<<":
            return arith("*", a, 1 << b)
        if kind(a) == "int":
            return mkint(a.t / (1 << b), None if a.lo is None else a.lo >> b, None if a.hi is None else a.hi >> b)
        w = width(a.lo, a.hi)
        if b >= w:
            return ite(a < 0, -1, 0)
        return mkbv(bvterm(a, w) >> b, a.lo >> b, a.hi >> b)
    if b.lo is None or b.lo < 0 or b.hi is None or b.hi > 128:
        if ENG.entailed(boolterm(b >= 0)) and b.hi is not None and b.hi <= 128:
            pass
        else:
            raise Unsupported("shift by an unbounded amount")
    r = None
    for k in range(max(b.lo, 0), b.hi + 1):
        v = shift(op, a, k)
        r = v if r is None else ite(b == k, v, r)
    return r


def compare(op, a, b):
    if isinstance(a, (float, SymReal)) or isinstance(b, (float, SymReal)):
        return realcmp(op, a, b)
    if foreign(a) or foreign(b):
        return NotImplemented
    if not isinstance(b, (int, SymInt, SymBool)) or not isinstance(a, (int, SymInt, SymBool)):
        return False if op == "==" else NotImplemented
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return {"==": a == b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    la, ha, lb, hb = lo(a), hi(a), lo(b), hi(b)
    if None not in (ha, lb) and ha < lb:
        return op in ("<", "<=")
    if None not in (la, hb) and la > hb:
        return op in (">", ">=")
    if op == "<=" and None not in (ha, lb) and ha <= lb:
        return True
    if op == ">=" and None not in (la, hb) and la >= hb:
        return True
    if op == ">" and None not in (ha, lb) and ha <= lb:
        return False
    if op == "<" and None not in (la, hb) and la >= hb:
        return False
    if kind(a) == "int" or kind(b) == "int":
        x, y = intterm(a), intterm(b)
    else:
        w = max(width(la, ha), width(lb, hb))
        x, y = bvterm(a, w), bvterm(b, w)
    return mkbool({"==": lambda: x == y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y,
                   ">=": lambda: x >= y}[op]())


# ----------------------------------------------------------------------------------------- reals
class SymReal(Sym):
    """A float treated as a mathematical real."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = z3.simplify(t)

    def __repr__(self):
        return "<real %s>" % str(self.t)[:80]

    def __format__(self, spec):
        return "?"

    __hash__ = object.__hash__

    def __float__(self):
        raise Unsupported("conversion of a symbolic real")

    def __bool__(self):
        return bool(mkbool(self.t != 0))

    def __add__(self, o):
        return realop("+", self, o)

    def __radd__(self, o):
        return realop("+", o, self)

    def __sub__(self, o):
        return realop("-", self, o)

    def __rsub__(self, o):
        return realop("-", o, self)

    def __mul__(self, o):
        return realop("*", self, o)

    def __rmul__(self, o):
        return realop("*", o, self)

    def __truediv__(self, o):
        return realop("/", self, o)

    def __rtruediv__(self, o):
        return realop("/", o, self)

    def __neg__(self):
        return SymReal(-self.t)

    def __abs__(self):
        return SymReal(z3.If(self.t >= 0, self.t, -self.t))

    def __int__(self):
        raise Unsupported("int() of a symbolic real outside the int shim")

    def __eq__(self, o):
        return realcmp("==", self, o)

    def __ne__(self, o):
        return neg(realcmp("==", self, o))

    def __lt__(self, o):
        return realcmp("<", self, o)

    def __le__(self, o):
        return realcmp("<=", self, o)

    def __gt__(self, o):
        return realcmp(">", self, o)

    def __ge__(self, o):
        return realcmp(">=", self, o)

    def __mod__(self, o):
        q = real_floor(self / o)
        return self - o * SymReal(z3.ToReal(q.t) if isinstance(q, SymInt) else z3.RealVal(q))

    def __floordiv__(self, o):
        q = real_floor(self / o)
        return SymReal(z3.ToReal(intterm(q)))

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))


def real_floor(r):
    t = z3.simplify(z3.ToInt(realterm(r)))
    return mkint(t)


def real_trunc(r):
    x = realterm(r)
    return mkint(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))


def realterm(v):
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, float):
        f = fractions.Fraction(v)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, (SymInt, SymBool)):
        return z3.ToReal(intterm(v))
    if hasattr(v, "__symreal__"):
        return v.__symreal__()
    raise Unsupported("real of %r" % type(v))


def realop(op, a, b):
    if foreign(a) or foreign(b):
        return NotImplemented
    try:
        x, y = realterm(a), realterm(b)
    except Unsupported:
        return NotImplemented
    if op == "/":
        if z3.is_rational_value(y):
            if y.numerator_as_long() == 0:
                raise ZeroDivisionError("float division by zero")
        elif bool(mkbool(y == 0)):
            raise ZeroDivisionError("float division by zero")
        return SymReal(x / y)
    return SymReal(x + y if op == "+" else x - y if op == "-" else x * y)


def realcmp(op, a, b):
    if foreign(a) or foreign(b):
        return NotImplemented
    try:
        x, y = realterm(a), realterm(b)
    except Unsupported:
        return False if op == "==" else NotImplemented
    return mkbool({"==": lambda: x == y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y,
                   ">=": lambda: x >= y}[op]())


# ----------------------------------------------------------------------------------------- strings
class FmtStr(Sym):
    """Opaque formatted string: equal format and equal arguments give equal strings."""
    __slots__ = ("fmt", "args")

    def __init__(self, fmt, args):
        self.fmt, self.args = fmt, tuple(args)

    def __repr__(self):
        return "FmtStr(%r, %r)" % (self.fmt, self.args)

    def __str__(self):
        return "<%s>" % self.fmt

    def __format__(self, spec):
        return "<%s>" % self.fmt

    def __eq__(self, o):
        if isinstance(o, FmtStr) and o.fmt == self.fmt and len(o.args) == len(self.args):
            return land(*[eq(a, b) for a, b in zip(self.args, o.args)])
        if isinstance(o, (str, FmtStr)):
            raise Unsupported("comparison of differently built strings")
        return False

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = object.__hash__

    def __add__(self, o):
        return FmtStr("%s%s", (self, o))

    def __radd__(self, o):
        return FmtStr("%s%s", (o, self))


def eq(a, b):
    """Symbolic equality of two values (structural on tuples)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    if hasattr(a, "__symval__"):
        a = a.__symval__()
    if hasattr(b, "__symval__"):
        b = b.__symval__()
    r = (a == b)
    if r is NotImplemented:
        r = (b == a)
    return r
