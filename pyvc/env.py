"""Stand-ins for the libraries /repo imports, and program loading for the transcoder and the simulator."""
import types
import functools as real_functools
import builtins
from . import values as V
from . import engine as EN
from . import nparr, bag, instrument
from .values import Sym, Unsupported
from .instrument import Program, RList, RDict, REPO


def mod(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def lru_cache(maxsize=128, typed=False):
    """Identity on results, with the obligation that the function is pure (re-evaluated at path ends);
    results for fully concrete arguments are shared as the real cache does."""
    def deco(f):
        cache = {}
        name = f.__qualname__

        @real_functools.wraps(f)
        def wrapper(*args, **kw):
            e = V.ENG
            for a in list(args) + list(kw.values()):
                if hasattr(a, "__np_array__") or isinstance(a, (list, dict, set)):
                    raise TypeError("unhashable type: %r" % type(a).__name__)
            conc = all(isinstance(a, (int, str, float, type, bool)) or a is None or isinstance(a, EN.enum.Enum)
                       or (hasattr(a, "__np_scalar__") and not isinstance(a.v, Sym))
                       for a in list(args) + list(kw.values()))
            active = e is not None and e.active
            if active and getattr(e, "in_purity", False):
                return f(*args, **kw)
            if conc:
                key = (args, tuple(sorted(kw.items())))
                if key in cache and (not active or cache[key][0] == e.pathno or cache[key][0] is None):
                    return cache[key][1]
            r = f(*args, **kw)
            if isinstance(r, types.GeneratorType):
                if active:
                    e.fail("cached function %s does not return a generator" % name)
                raise Unsupported("cached generator")
            if conc:
                cache[key] = (e.pathno if active else None, r)
            if active:
                e.cached_calls.setdefault(name, (f, args, kw, r, None))
            return r
        wrapper.cache_clear = cache.clear
        wrapper.cache_info = lambda: None
        return wrapper
    if callable(maxsize) and not isinstance(maxsize, (int, Sym)):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def functools_stub():
    m = mod("functools", lru_cache=lru_cache, cache=lambda f: lru_cache(None)(f), partial=real_functools.partial,
            wraps=real_functools.wraps, reduce=real_functools.reduce)
    m.cached_property = real_functools.cached_property
    return m


class SymEnumVal(object):
    """Member of an enum class with an unknown (but valid) value."""

    __symenum__ = True

    def __init__(self, cls, v):
        self.cls, self._value_ = cls, v

    value = property(lambda self: self._value_)

    @property
    def name(self):
        raise Unsupported("name of an unknown enum member")

    def __eq__(self, o):
        if isinstance(o, SymEnumVal):
            return V.land(o.cls is self.cls, V.eq(self._value_, o._value_))
        if isinstance(o, EN.enum.Enum):
            return V.land(type(o) is self.cls, V.eq(self._value_, o.value))
        return False

    def __ne__(self, o):
        return V.neg(self == o)

    def __hash__(self):
        return id(self)

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "enumval", self.cls.__name__))
        slots[path] = EN.Slot(self._value_, "leaf", None)


class SEnumMeta(EN.enum.EnumMeta):
    def __call__(cls, value, *a, **kw):
        if hasattr(value, "__np_scalar__"):
            value = value.v
        if isinstance(value, Sym) and not a:
            vals = [m.value for m in cls]
            if isinstance(value, V.SymInt) and value.lo is not None and value.hi is not None and \
                    value.hi - value.lo < 64 and all(k in vals for k in range(value.lo, value.hi + 1)):
                return SymEnumVal(cls, value)
            ok = V.lor(*[V.eq(value, v) for v in vals]) if vals else False
            if not bool(ok):
                raise ValueError("not a valid %s" % cls.__name__)
            return SymEnumVal(cls, value)
        return super().__call__(value, *a, **kw)


def enum_stub():
    m = mod("enum")
    real = EN.enum
    m.Enum = SEnumMeta("Enum", (real.Enum,), SEnumMeta.__prepare__("Enum", (real.Enum,)))
    for n in ("IntEnum", "Flag", "IntFlag", "auto", "unique"):
        setattr(m, n, getattr(real, n))
    return m


def sRGBColor(r, g, b, is_upscaled=False):
    return ("sRGB", r, g, b, is_upscaled)


def getrandbits(k):
    e = V.ENG
    if e is None or not e.active:
        return 0
    return e.fresh_int("rnd", 0, (1 << k) - 1, bv=True)


def stubs(np_extra=None, **extra):
    color_objects = mod("colormath.color_objects", sRGBColor=sRGBColor, LabColor="LabColor")
    colormath = mod("colormath", color_objects=color_objects)
    random = mod("random", getrandbits=getrandbits)

    def randint(a, b):
        return V.ENG.fresh_int("rnd", a, b)
    random.randint = randint
    random.randrange = lambda a, b=None: V.ENG.fresh_int("rnd", 0 if b is None else a, (a if b is None else b) - 1)
    st = {
        "numpy": nparr.make_module(**(np_extra or {})),
        "functools": functools_stub(), "enum": enum_stub(),
        "colormath": colormath, "colormath.color_objects": color_objects,
        "heapq": bag.module(), "random": random,
        "skvideo": mod("skvideo", io=mod("skvideo.io")), "skvideo.io": mod("skvideo.io"),
        "PIL": mod("PIL", Image=mod("Image", Image=object, LANCZOS=1)),
        "audioread": mod("audioread"), "librosa": mod("librosa", core=mod("core")),
        "bz2": mod("bz2"), "pickle": mod("pickle"),
    }
    st.update(extra)
    return st


def transcoder(**kw):
    """Instrumented transcoder modules of /repo's current source."""
    np_extra = kw.pop("np_extra", None)
    ov = kw.pop("overrides", None)
    p = Program([REPO + "/transcoder"], stubs(np_extra, **kw), ov)
    return p


# the player symbol table used when opcodes.py is imported: the committed debug file
class RealOpen(object):
    def __init__(self):
        pass


def repo_open(path, mode="r", *a, **kw):
    """open() for files below /repo (read only), relative names resolved against /repo."""
    import os
    if not isinstance(path, str) or any(c in mode for c in "wa+x"):
        raise Unsupported("open(%r, %r)" % (path, mode))
    return builtins.open(os.path.join(REPO, path), mode)
