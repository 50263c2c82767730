"""Path-exploring verification-condition generator for the instrumented Python of /repo.

Every path of a harness is executed on the real (instrumented) code with symbolic values.  Loops that
iterate an unknown number of times are cut at their heads: on arrival the set of locations the body changes
is replaced by fresh values restricted by the invariants, and a path that comes back to the head is closed
after the invariants have been proved there (so the proof covers every number of iterations).
The havoc set of a loop is inferred: whatever differs between two arrivals is added and the run restarts.
Path closing, decisions and obligations are decided by z3 (cvc5 as a second back end in Check.prove)."""
import os
import sys
import time
import types
import enum
import z3
from . import values as V
from .values import SymInt, SymBool, SymReal, FmtStr, Sym, Unsupported


class PathClosed(BaseException):
    pass


class Infeasible(BaseException):
    pass


class Restart(BaseException):
    pass


class Unbound(object):
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class Ghost(object):
    """Mutable specification state; every attribute takes part in loop invariants and havoc."""

    def __setattr__(self, k, v):
        e = V.ENG
        if e is not None:
            e.log_attr(self, k)
        object.__setattr__(self, k, v)


class Slot(object):
    __slots__ = ("value", "setter", "havoc", "kind")

    def __init__(self, value, kind, setter=None, havoc=None):
        self.value, self.kind, self.setter, self.havoc = value, kind, setter, havoc


def same(a, b):
    """Syntactic identity of two leaf values."""
    if a is b:
        return True
    if isinstance(a, (SymInt, SymBool, SymReal)) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    if hasattr(a, "__same__"):
        return type(a) is type(b) and a.__same__(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, float, str, bytes, complex)):
        return a == b
    return False


NONLIN = {}


def nonlinear(t):
    """Does the term multiply unknown reals?  (Memoised; the terms are kept alive.)"""
    i = t.get_id()
    r = NONLIN.get(i)
    if r is None:
        cs = t.children()
        v = z3.is_real(t) and z3.is_mul(t) and sum(not z3.is_rational_value(c) for c in cs) > 1
        for c in cs:
            v = nonlinear(c) or v
        r = NONLIN[i] = (v, t)
    return r[0]


def linearized(fs):
    """Unsatisfiable even with products of unknown reals replaced by arbitrary reals?"""
    if not any(nonlinear(t) for t in fs):
        return False
    keep, memo, names = [], {}, {}

    def walk(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        keep.append(t)
        cs = t.children()
        if z3.is_real(t) and z3.is_mul(t) and sum(not z3.is_rational_value(c) for c in cs) > 1:
            k = tuple(sorted(c.get_id() for c in cs if not z3.is_rational_value(c)))
            if k not in names:
                names[k] = z3.Real("product!%d" % len(names))
            r = names[k]
            for c in cs:
                if z3.is_rational_value(c):
                    r = c * r
        elif not cs:
            r = t
        else:
            ns = [walk(c) for c in cs]
            r = t if all(a is b for a, b in zip(ns, cs)) else t.decl()(*ns)
        memo[i] = r
        return r
    s = z3.Solver()
    s.set("timeout", 5000)
    for t in fs:
        t = z3.simplify(t, som=True, mul_to_power=False)
        keep.append(t)
        s.add(walk(t))
    return s.check() == z3.unsat


class Engine(object):
    def __init__(self, check, prefix="", max_paths=4000, max_unroll=16, timeout=20000, max_seconds=400, dry=False, jobs=1):
        self.ck = check
        self.jobs = 1 if os.environ.get("VERIF_SERIAL") else jobs       # worker processes exploring paths
        self.dry = dry              # first find out what the loops change, without discharging obligations
        self.prefix = prefix
        self.max_paths, self.max_unroll, self.timeout = max_paths, max_unroll, timeout
        self.deadline = time.time() + max_seconds
        self.havocs = {}            # loop key -> set of slot paths
        self.share_havoc = False
        self.houdini = {}           # loop key -> set of dropped candidates
        self.frames_ok = set()      # code filenames that are instrumented
        self.user_inv = []          # functions () -> [(name, SymBool)], assumed at cuts, proved at entry/back edge
        self.elem_inv = []          # functions (array-group hook), see nparr
        self.loop_inv = None        # function(loop info, locals) -> [(name, SymBool)]
        self.globals_roots = {}
        self.load_log = None
        self.obs = {}
        self.cuts = {}
        self.active = False
        self.open = None
        self.probing = False        # evaluating the pattern of a queue's elements: indices are in range by construction
        self.grow_like = {}         # element type of generalised lists, per creation site
        self.pathno = 0
        self.purity = True

    # ------------------------------------------------------------------ running
    def run(self, fn):
        """Explore every path of fn(); returns True when every path ended normally or was closed."""
        prev = V.ENG
        V.ENG = self
        self.active = True
        restarts = 0
        try:
            while True:
                try:
                    self.explore(fn)
                    if self.dry:
                        # loops are generalised far enough: now discharge the obligations
                        self.dry = False
                        continue
                    return True
                except Restart as r:
                    restarts += 1
                    if restarts > 120:
                        raise Unsupported("loop invariant inference does not converge: %s" % (r,))
        finally:
            self.undo_all()
            self.active = False
            V.ENG = prev

    def on_time(self):
        self.ticks += 1
        if self.ticks % 256 == 0 and time.time() > self.deadline:
            raise Unsupported("time limit of the path exploration")

    def path(self, fn, prefix):
        """One path; 1 when it was completed."""
        if time.time() > self.deadline:
            raise Unsupported("time limit of the path exploration")
        self.start_path(prefix)
        try:
            fn()
            self.end_path()
            return 1
        except PathClosed:
            try:
                self.end_path()
                return 1
            except Infeasible:
                pass
        except Infeasible:
            pass
        finally:
            self.undo_all()
        return 0

    def pool(self, fn, stack, n, live):
        """Explore the remaining paths in worker processes; returns (paths, completed)."""
        import multiprocessing as mp
        from multiprocessing.connection import wait
        ctx = mp.get_context("fork")
        workers = []
        try:
            for k in range(self.jobs):
                a, b = ctx.Pipe()
                p = ctx.Process(target=self.worker, args=(fn, b, a))
                p.daemon = True
                p.start()
                b.close()
                workers.append((p, a))
            busy = {}
            idle = list(workers)
            while stack or busy:
                while stack and idle:
                    n += 1
                    if n > self.max_paths:
                        raise Unsupported("more than %d paths" % self.max_paths)
                    w = idle.pop()
                    w[1].send((stack.pop(), self.houdini))
                    busy[w[1]] = w
                for c in wait(list(busy)):
                    try:
                        r = c.recv()
                    except EOFError:
                        raise Unsupported("a worker process ended early")
                    idle.append(busy.pop(c))
                    for k, v in r["houdini"].items():
                        self.houdini.setdefault(k, set()).update(v)
                    for k, v in r["havocs"].items():
                        self.havocs.setdefault(k, set()).update(v)
                    if r["exc"] is not None:
                        kind, text = r["exc"]
                        raise {"Restart": Restart, "Unsupported": Unsupported}.get(kind, RuntimeError)(text)
                    live += r["live"]
                    stack.extend(r["forks"])
                    self.pending_obs.extend(r["obs"])
                    for k, v in r["cuts"].items():
                        self.cuts[k] = self.cuts.get(k, 0) + v
                    self.used |= r["used"]
                    self.conflict()
            return n, live
        finally:
            for p, a in workers:
                a.close()
                p.terminate()
            for p, a in workers:
                p.join()

    def conflict(self):
        """A candidate assumed on one path was given up on another: start again without it."""
        for key, c in self.used:
            if c in self.houdini.get(key, ()):
                raise Restart("candidate %s given up" % (c,))

    def worker(self, fn, conn, other):
        other.close()
        import traceback
        while True:
            try:
                prefix, drops = conn.recv()
            except (EOFError, OSError):
                os._exit(0)
            self.pending_obs, self.used, self.cuts = [], set(), {}
            for k, v in drops.items():
                self.houdini.setdefault(k, set()).update(v)
            exc, live = None, 0
            try:
                live = self.path(fn, prefix)
            except Restart as r:
                exc = ("Restart", str(r))
            except Unsupported as u:
                exc = ("Unsupported", "%s\n%s" % (u, traceback.format_exc()[-700:]))
            except BaseException as x:
                exc = ("error", "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-900:]))
            try:
                conn.send(dict(exc=exc, live=live, forks=self.forks, obs=self.pending_obs, cuts=self.cuts,
                               used=self.used, houdini=self.houdini, havocs=self.havocs))
            except OSError:
                os._exit(0)         # the exploration was given up

    def explore(self, fn):
        stack = [[]]
        n = live = 0
        self.pending_obs = []
        self.refuted = {}
        self.used = set()           # candidate invariants assumed so far
        while stack:
            if self.jobs > 1 and len(stack) >= 2:
                n, live = self.pool(fn, stack, n, live)
                break
            n += 1
            if n > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            live += self.path(fn, stack.pop(0 if self.dry else -1))
            self.conflict()
            stack.extend(self.forks)
        self.npaths = n
        if self.open is not None and self.open.dirty:
            self.open.dirty = False
            raise Restart("new shape of container members")
        if self.dry:
            return
        self.ck.covers.append((self.prefix + "completed paths: %d of %d" % (live, n), "sat" if live else "unsat"))
        if not live and not any(not ok for _, ok, _, _ in self.pending_obs):
            self.ck.undecided(self.prefix + "cover", "no path of the harness reaches its end (vacuous)")
        for k in self.cuts:
            if k.startswith("cover:"):
                self.ck.covers.append((self.prefix + k[6:], "sat"))
        agg = {}
        for name, ok, detail, secs in self.pending_obs:
            a = agg.setdefault(name, [0, 0.0, None])
            a[0] += 1
            a[1] += secs
            if not ok and a[2] is None:
                a[2] = detail
        for name, (cnt, secs, bad) in agg.items():
            self.obs[name] = self.obs.get(name, 0) + cnt
            self.ck.ob(self.prefix + name, bad is None, detail=bad or "", backend="z3", t=secs)
            self.ck.solver_time += secs

    def start_path(self, prefix):
        self.undo = []
        self.ticks = 0
        self.decisions = list(prefix)
        self.dpos = 0
        self.taken = []
        self.forks = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.counter = {}
        self.symdec = 0             # emptiness decisions of abstract collections on this path
        self.ghost_roots = {}
        self.mutated_globals = {}
        self.cached_calls = {}
        self.elem_hooks = []
        self.pathno += 1
        self.user_inv = []
        self.loop_inv = None
        self.fresh_bases = []
        self.arrivals = 0
        self.choice_log = []
        self.open = None            # containers with unknown members (see opencol.Open)
        self.grow = None            # element contract of lists built by append (see instrument.GrowList)
        self.templates = []         # candidate loop invariants: fn(a, b) -> bool over pairs of integer locations

    def end_path(self):
        if self.purity:
            calls, self.cached_calls = self.cached_calls, {}
            for name, (f, args, kw, res, ng) in calls.items():
                self.in_purity = True
                r2 = f(*args, **kw)
                self.in_purity = False
                self.prove("cached function %s returns the same value whenever it is called" % name, V.eq(res, r2))

    # ------------------------------------------------------------------ undo log
    def log_attr(self, o, k):
        if self.active:
            d = o.__dict__
            self.undo.append((d, k, d.get(k, UNBOUND)))

    def log(self, f):
        if self.active:
            self.undo.append(f)

    def undo_all(self):
        for u in reversed(getattr(self, "undo", [])):
            if callable(u):
                u()
            else:
                d, k, old = u
                if isinstance(d, type):
                    if old is UNBOUND:
                        delattr(d, k)
                    else:
                        type.__setattr__(d, k, old)
                elif old is UNBOUND:
                    d.pop(k, None)
                else:
                    d[k] = old
        self.undo = []

    # ------------------------------------------------------------------ decisions
    def assume(self, t, why=None):
        t = V.boolterm(t) if not isinstance(t, z3.BoolRef) else t
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        self.pc.append(t)
        self.solver.add(t)
        if z3.is_false(t):
            raise Infeasible()

    def feasible(self, t):
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
            self.dpos += 1
            if d in ("T", "t"):
                self.taken.append("t")
                if d == "T" or True:
                    self.assume(t)
                return True
            self.taken.append("f")
            self.assume(z3.Not(t))
            return False
        self.dpos += 1
        can_t = self.feasible(t)
        can_f = self.feasible(z3.Not(t))
        if can_t and can_f:
            self.forks.append(self.taken + ["f"])
            self.taken.append("t")
            self.assume(t)
            return True
        if can_t:
            self.taken.append("t")
            self.assume(t)
            return True
        if can_f:
            self.taken.append("f")
            self.assume(z3.Not(t))
            return False
        raise Infeasible()

    def choose(self, n, name="choice"):
        """Non-deterministic choice of 0..n-1."""
        for i in range(n - 1):
            if self.branch(self.fresh_bool("%s%d" % (name, i)).t):
                return i
        return n - 1

    def entailed(self, t):
        t = z3.simplify(V.boolterm(t) if not isinstance(t, z3.BoolRef) else t)
        if z3.is_true(t):
            return True
        self.solver.push()
        self.solver.add(z3.Not(t))
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.timeout)
            s.add(self.pc)
            s.add(z3.Not(t))
            return s.check() == z3.unsat
        return False

    def concretize(self, v):
        """Fork over the possible values of a symbolic integer (at most 64)."""
        for _ in range(64):
            r = self.solver.check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported("cannot enumerate a symbolic index")
            # deterministic choice across re-execution: smallest value
            x = self.smallest(v)
            if self.branch(V.boolterm(v == x)):
                return x
        raise Unsupported("a symbolic integer with more than 64 values is used as a concrete index")

    def smallest(self, v):
        if v.lo is not None and v.hi is not None and v.hi - v.lo <= 64:
            for x in range(v.lo, v.hi + 1):
                t = V.boolterm(v == x)
                if self.feasible(t):
                    return x
            raise Infeasible()
        s = self.solver
        s.push()
        best = None
        while True:
            if s.check() != z3.sat:
                break
            m = s.model().eval(v.t, model_completion=True)
            best = m.as_signed_long() if z3.is_bv_value(m) else m.as_long()
            s.add(V.boolterm(v < best))
        s.pop()
        return best

    # ------------------------------------------------------------------ fresh values
    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def fresh_bool(self, base):
        return SymBool(z3.Bool(self.name(base)))

    def fresh_int(self, base, l=None, h=None, bv=None):
        """Fresh integer; a bit vector when both bounds are given and fit 64 bits."""
        n = self.name(base)
        if bv is None:
            bv = l is not None and h is not None and V.width(l, h) <= 65
        if not bv:
            t = z3.Int(n)
            v = SymInt(t, l, h)
            if l is not None:
                self.assume(t >= l)
            if h is not None:
                self.assume(t <= h)
            return v
        if l == h:
            return l
        if l >= 0:
            w = h.bit_length()
            t = z3.BitVec(n, w)
            if h != (1 << w) - 1:
                self.assume(z3.ULE(t, h))
            if l:
                self.assume(z3.UGE(t, l))
            return SymInt(z3.ZeroExt(1, t), l, h)
        w = V.width(l, h)
        t = z3.BitVec(n, w)
        if l != -(1 << (w - 1)):
            self.assume(t >= l)
        if h != (1 << (w - 1)) - 1:
            self.assume(t <= h)
        return SymInt(t, l, h)

    def fresh_real(self, base):
        return SymReal(z3.Real(self.name(base)))

    # ------------------------------------------------------------------ obligations
    def prove(self, name, cond, detail=None):
        """Obligation at the current path; afterwards the condition is assumed."""
        if isinstance(cond, bool) or cond is NotImplemented:
            cond = cond is True
            t = z3.BoolVal(cond)
        else:
            t = V.boolterm(cond)
        t = z3.simplify(t)
        t0 = time.time()
        if z3.is_true(t):
            self.pending_obs.append((name, True, None, 0.0))
            return True
        if self.dry:
            self.assume(t)
            return True
        if self.dpos < len(self.decisions):
            # proved already on the path this one was forked from
            self.assume(t)
            return True
        if linearized(self.pc + [z3.Not(t)]):
            self.pending_obs.append((name, True, None, time.time() - t0))
            self.assume(t)
            return True
        self.solver.push()
        self.solver.add(z3.Not(t))
        self.solver.set("timeout", 1500)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.timeout)
            s.add(self.pc)
            s.add(z3.Not(t))
            r = s.check()
            m = s.model() if r == z3.sat else None
        if r == z3.unsat:
            self.pending_obs.append((name, True, None, time.time() - t0))
            self.assume(t)
            return True
        if r == z3.sat:
            self.pending_obs.append((name, False, "%s%s" % ((detail() if callable(detail) else detail) or "",
                                                            self.show_model(m)), time.time() - t0))
            if z3.is_false(t):
                raise Infeasible()
            try:
                self.assume(t)
            except Infeasible:
                raise
            return False
        if self.cvc5(t):
            self.pending_obs.append((name, True, None, time.time() - t0))
            self.assume(t)
            return True
        raise Unsupported("obligation not decided by z3 or cvc5: %s" % name)

    def cvc5(self, t):
        import subprocess
        s = z3.Solver()
        s.add(self.pc)
        s.add(z3.Not(t))
        try:
            out = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000"],
                                 input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True,
                                 text=True, timeout=40).stdout
        except Exception:
            return False
        return out.strip().startswith("unsat")

    def show_model(self, m):
        """Counterexample as text; a JSON copy (with the contents of unknown arrays) follows for the replays."""
        import json

        def val(v):
            if z3.is_bv_value(v):
                return v.as_long()
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_true(v) or z3.is_false(v):
                return z3.is_true(v)
            if z3.is_rational_value(v):
                return float(v.numerator_as_long()) / float(v.denominator_as_long())
            if z3.is_algebraic_value(v):
                return float(v.approx(9).numerator_as_long()) / v.approx(9).denominator_as_long()
            return str(v)
        try:
            out, arrs = {}, {}
            for d in m.decls():
                if d.arity() == 0:
                    out[d.name()] = val(m[d])
                elif d.arity() == 1:
                    fi = m[d]
                    ent = [[val(fi.entry(k).arg_value(0)), val(fi.entry(k).value())]
                           for k in range(min(fi.num_entries(), 60))]
                    arrs[d.name()] = dict(cells=ent, other=val(fi.else_value()) if fi.else_value() is not None else 0)
            txt = ", ".join("%s=%s" % kv for kv in sorted(out.items()))[:600]
            return " counterexample: " + txt + " JSON:" + json.dumps(dict(vars=out, arrays=arrs), default=str)[:5000]
        except Exception:
            return ""

    def fail(self, name, detail=None):
        """The current path must be unreachable."""
        self.prove(name, False, detail)

    def cover(self, name):
        """The current point is reachable (guards against vacuous proofs)."""
        if self.dpos <= len(self.decisions) and self.feasible(z3.BoolVal(True)):
            self.cuts.setdefault("cover:" + name, 0)
            self.cuts["cover:" + name] += 1
        else:
            self.cuts["cover:" + name] = self.cuts.get("cover:" + name, 0) + 1

    # ------------------------------------------------------------------ hooks called by instrumented code
    @staticmethod
    def seq(*a):
        return a[-1]

    def setattr(self, o, k, v):
        if self.active:
            d = getattr(o, "__dict__", None)
            if isinstance(o, type):
                self.undo.append((o, k, o.__dict__.get(k, UNBOUND)))
            elif d is not None and type(getattr(type(o), k, None)) is not property:
                self.undo.append((d, k, d.get(k, UNBOUND)))
                if id(o) in self.globals_roots:
                    self.mutated_globals[id(o)] = o
        setattr(o, k, v)

    # ------------------------------------------------------------------ state walk
    def walk(self, frame, locs, live, act):
        """Ordered map path -> Slot of the state visible at a loop head, and its shape signature."""
        slots = {}
        sig = []
        memo = {}

        def leaf(path, v, setter):
            slots[path] = Slot(v, "leaf", setter)

        def node(path, v, setter):
            if v is None or isinstance(v, (bool, str, bytes, enum.Enum, type, types.FunctionType,
                                           types.BuiltinFunctionType, types.ModuleType)) or v is UNBOUND:
                if isinstance(v, (bool, str, bytes, enum.Enum)) or v is None or v is UNBOUND:
                    sig.append((path, repr(v)))
                slots[path] = Slot(v, "sig", None)
                return
            if isinstance(v, (int, float, Sym)):
                if isinstance(v, SymBool):
                    sig.append((path, "symbool"))
                if isinstance(v, float):
                    sig.append((path, "float"))
                leaf(path, v, setter)
                return
            if hasattr(v, "__np_scalar__"):
                sig.append((path, "np", v.__np_scalar__))
                leaf(path, v, setter)
                return
            key = id(v)
            if key in memo:
                sig.append((path, "ref", memo[key]))
                return
            memo[key] = path
            keep.append(v)
            if hasattr(v, "__walk__"):
                v.__walk__(path, slots, sig, node)
                return
            if isinstance(v, tuple):
                sig.append((path, "tuple", len(v)))
                for i, x in enumerate(v):
                    node(path + (i,), x, None)
                return
            if isinstance(v, list):
                sig.append((path, "list", len(v)))
                for i, x in enumerate(v):
                    node(path + (i,), x, (lambda val, v=v, i=i: v.__setitem__(i, val)))
                return
            if isinstance(v, dict):
                ks = list(v.keys())
                sig.append((path, "dict", tuple(repr(k) if isinstance(k, (int, str, enum.Enum, tuple, bool))
                                                else "?" for k in ks)))
                for k in ks:
                    node(path + (repr(k),), v[k], (lambda val, v=v, k=k: v.__setitem__(k, val)))
                return
            if isinstance(v, types.GeneratorType):
                f = v.gi_frame
                if f is None:
                    sig.append((path, "gen", "done"))
                    return
                if v.gi_running:
                    # its frame is walked as one of the active frames
                    sig.append((path, "gen", f.f_code.co_name, "running"))
                    return
                lv = self.live_at_yield(f)
                its = self.line_iters.get((f.f_code.co_filename, f.f_code.co_name, f.f_lineno), ())
                sig.append((path, "gen", f.f_code.co_name, f.f_lasti))
                for k, x in sorted(f.f_locals.items()):
                    if lv is None or k in lv or k in its:
                        node(path + (k,), x, None)
                if v.gi_yieldfrom is not None:
                    node(path + ("yf",), v.gi_yieldfrom, None)
                return
            if isinstance(v, types.MethodType):
                node(path + ("self",), v.__self__, None)
                return
            if isinstance(v, Ghost) or type(v).__module__ in self.walk_modules:
                d = v.__dict__
                sig.append((path, "obj", type(v).__name__, tuple(sorted(d))))
                for k in sorted(d):
                    node(path + (k,), d[k], (lambda val, v=v, k=k: self.setattr(v, k, val)))
                return
            slots[path] = Slot(v, "opaque", None)
            sig.append((path, "opaque", type(v).__name__))

        keep = []
        for k in sorted(locs):
            if k in live or k in act.info.iters:
                node(("L", k), locs[k], ("local", k))
        f = frame.f_back
        depth = 0
        ctx = []
        while f is not None:
            fn = f.f_code.co_filename
            if fn in self.frames_ok:
                depth += 1
                ctx.append((f.f_code.co_name, f.f_lineno))
                where = (fn, f.f_code.co_name, f.f_lineno)
                lv, its = self.line_live.get(where), self.line_iters.get(where, ())
                for k, x in sorted(f.f_locals.items()):
                    if k.startswith("_vw"):
                        continue
                    if lv is None or k in lv or k in its or k.startswith("_vt"):
                        node(("F%d" % depth, k), x, None)
            f = f.f_back
        for k in sorted(self.ghost_roots):
            node(("G", k), self.ghost_roots[k], None)
        for n, o in enumerate(sorted(self.mutated_globals)):
            node(("M", n), self.mutated_globals[o], None)
        self.keepalive = keep
        return slots, tuple(sig), tuple(ctx)

    walk_modules = set()
    yield_live = {}
    line_live = {}
    line_iters = {}

    def live_at_yield(self, f):
        return self.yield_live.get((f.f_code.co_filename, f.f_code.co_name, f.f_lineno))

    # ------------------------------------------------------------------ loop heads
    def head(self, act, locs, frame):
        """Called at every arrival at a loop head of a non-native loop; returns replacements for locals."""
        self.arrivals += 1
        if self.arrivals > 3000:
            raise Unsupported("loop does not close: %s" % (act.info.where,))
        if time.time() > self.deadline:
            raise Unsupported("time limit at loop %s" % (act.info.where,))
        act.count += 1
        sd, act.symdec = self.symdec - act.symdec, self.symdec
        if act.count > 1 and sd:
            act.unbounded = True
        if act.mode == "while" and act.count > self.max_unroll:
            act.unbounded = True
        compare = act.unbounded or act.mode in ("while", "sym")
        if act.mode == "gen" and act.count == 1:
            compare = True
        if not compare and act.mode == "gen" and act.count > self.max_unroll * 40:
            raise Unsupported("generator loop does not end: %s" % (act.info.where,))
        if not compare:
            return None
        slots, sig, ctx = self.walk(frame, locs, act.info.live, act)
        key = (act.info.id, ctx, sig)
        kname = "%s" % (act.info.where,)
        prev = act.seen.get(sig)
        if prev is not None:
            return self.again(act, key, prev, slots, locs, kname)
        act.peels += 1
        if act.peels > 40 + (self.max_unroll if act.mode == "while" else 0):
            raise Unsupported("loop keeps changing shape: %s" % (kname,))
        return self.cut(act, key, slots, locs, frame, kname, sig)

    def again(self, act, key, prev, slots, locs, kname):
        hav = prev["havoc"]
        changed, stuck = [], []
        for p, s in slots.items():
            if p in hav:
                continue
            o = prev["slots"].get(p)
            if o is None:
                stuck.append(p)
                continue
            if s.kind == "leaf" or s.kind == "sig" or s.kind == "opaque":
                if not same(s.value, o.value):
                    if s.kind == "leaf" and s.setter is not None:
                        changed.append(p)
                    else:
                        stuck.append(p)
            elif s.kind == "custom":
                if not s.value.__unchanged__(o.setter):
                    if s.havoc is None:
                        stuck.append(p)
                    else:
                        changed.append(p)
        if stuck:
            # state that cannot be generalised changed: keep unrolling from here
            act.stuck += 1
            if act.stuck > 60:
                raise Unsupported("loop state cannot be generalised at %s: %s" % (kname, stuck[:3]))
            return None
        if changed and not (act.unbounded or act.mode == "sym") and act.count <= self.max_unroll:
            # a loop that may still end by itself: unroll
            act.seen[key[2]] = {"slots": freeze(slots), "havoc": set(), "locs": None, "inv": [], "entry": {}}
            return None
        if changed:
            self.havocs.setdefault(key, set()).update(changed)
            raise Restart("havoc %s at %s" % (changed[:4], kname))
        if hav or prev["inv"]:
            for name, t in self.invariants(act, locs):
                self.prove("loop %s: invariant preserved: %s" % (kname, name), t)
            dropped = self.houdini.setdefault(key, set())
            lost = None
            for cand in prev["cands"]:
                if cand in dropped:
                    continue
                if cand[0] == "rng":
                    lo, hi = prev["rng"][cand[1]]
                    v = slots[cand[1]].value
                    t = V.land(v >= lo, v <= hi)
                else:
                    t = self.candidate(cand, slots, prev["entry"])
                if not self.entailed(V.boolterm(t)):
                    dropped.add(cand)
                    lost = cand
            if lost is not None:
                raise Restart("candidate %s at %s" % (lost, kname))
            self.elem_check("loop %s: invariant preserved" % kname)
        self.cuts[kname] = self.cuts.get(kname, 0) + 1
        raise PathClosed()

    def invariants(self, act, locs):
        out = []
        for f in self.user_inv:
            out.extend(f())
        if self.loop_inv is not None:
            out.extend(self.loop_inv(act.info, locs) or [])
        return out

    def cut(self, act, key, slots, locs, frame, kname, sig):
        hav = self.havocs.get(key, set())
        if self.share_havoc and not hav:
            # start from what other arrivals at this loop had to generalise
            hav = {p for k, h in self.havocs.items() if k[0] == key[0] for p in h if p in slots}
            self.havocs[key] = set(hav)
        if self.share_havoc:
            self.houdini.setdefault(key, set()).update(c for k, h in self.houdini.items() if k[0] == key[0] for c in h)
        rec = {"havoc": set(hav), "inv": [], "cands": [], "entry": {}}
        repl = {}
        if hav:
            for name, t in self.invariants(act, locs):
                self.prove("loop %s: invariant on entry: %s" % (kname, name), t)
            self.elem_check("loop %s: invariant on entry" % kname)
            ints, bools = [], []
            before = {p: s.value for p, s in slots.items() if s.kind == "leaf" and
                      isinstance(s.value, (int, SymInt)) and not isinstance(s.value, bool)}
            for p in sorted(hav, key=str):
                s = slots.get(p)
                if s is None:
                    continue
                if s.kind == "custom":
                    s.havoc()
                    continue
                v = None
                c = ("rng", p)
                if isinstance(s.value, SymInt) and V.kind(s.value) == "bv" and \
                        c not in self.houdini.setdefault(key, set()):
                    lo, hi = s.value.lo, s.value.hi
                    rec["rng"] = dict(rec.get("rng", {}))
                    rec["rng"][p] = (lo, hi)
                    rec["cands"].append(c)
                    v = self.fresh_int("h_" + "_".join(str(x) for x in p[1:]), lo, hi, bv=True)
                if v is None:
                    v = self.havoc_value(p, s.value)
                rec["entry"][p] = s.value
                if isinstance(s.setter, tuple):
                    repl[s.setter[1]] = v
                else:
                    s.setter(v)
                if isinstance(v, SymInt):
                    ints.append(p)
                if isinstance(v, SymBool):
                    bools.append(p)
            new = dict(locs)
            new.update(repl)
            slots, sig2, _ = self.walk(frame, new, act.info.live, act)
            dropped = self.houdini.setdefault(key, set())
            for p in ints:
                rec["cands"] += [("ge", p), ("le", p)]
            if len(ints) <= 12:
                for i, p in enumerate(ints):
                    for q in ints[i + 1:]:
                        rec["cands"] += [("diff", p, q), ("sum", p, q)]
            if len(bools) <= 12:
                for i, p in enumerate(bools):
                    for q in bools[i + 1:]:
                        c = ("beq", p, q)
                        if c not in dropped and not self.entailed(
                                V.boolterm(V.eq(rec["entry"][p], rec["entry"][q]))):
                            dropped.add(c)
                        rec["cands"].append(c)
            if self.templates:
                after = {p: s.value for p, s in slots.items() if p in before}
                for j, f in enumerate(self.templates):
                    for p in ints:
                        for q in after:
                            c = ("tmpl", j, p, q)
                            if c in dropped or p == q:
                                continue
                            t = f(before[p], before[q])
                            if t is None or not self.entailed(V.boolterm(t)):
                                dropped.add(c)
                                continue
                            rec["cands"].append(c)
            for c in rec["cands"]:
                if c not in dropped and c[0] != "rng":
                    self.assume(self.candidate(c, slots, rec["entry"]))
                    if c[0] in ("beq", "tmpl"):
                        self.used.add((key, c))
            self.elem_reset()
            for name, t in self.invariants(act, new):
                self.assume(t)
            rec["inv"] = [1]
            if not self.feasible(z3.BoolVal(True)):
                raise Infeasible()
        rec["slots"] = freeze(slots)
        act.seen[sig] = rec
        return repl or None

    def candidate(self, c, slots, entry):
        if c[0] in ("ge", "le"):
            v, e = slots[c[1]].value, entry[c[1]]
            return v >= e if c[0] == "ge" else v <= e
        if c[0] == "tmpl":
            return self.templates[c[1]](slots[c[2]].value, slots[c[3]].value)
        v, w, e, g = slots[c[1]].value, slots[c[2]].value, entry[c[1]], entry[c[2]]
        if c[0] == "beq":
            return V.eq(v, w)
        if c[0] == "diff":
            return V.eq(v - w, e - g)
        return V.eq(v + w, e + g)

    def havoc_value(self, p, v):
        base = "h_" + "_".join(str(x) for x in p[1:])
        if hasattr(v, "__np_scalar__"):
            return v.fresh(base)
        if isinstance(v, bool) or isinstance(v, SymBool):
            return self.fresh_bool(base)
        if isinstance(v, (int, SymInt)):
            return self.fresh_int(base)
        if isinstance(v, (float, SymReal)):
            return self.fresh_real(base)
        raise Unsupported("cannot generalise %r (%s)" % (type(v), p))

    # element-wise invariants (installed by nparr)
    def elem_check(self, name):
        for h in self.elem_hooks:
            h.check(name)

    def elem_reset(self):
        for h in self.elem_hooks:
            h.reset()


def freeze(slots):
    """Copy of the slot table with the current values of custom nodes remembered in .setter."""
    out = {}
    for p, s in slots.items():
        n = Slot(s.value, s.kind, s.setter, s.havoc)
        if s.kind == "custom":
            n.setter = s.value.__token__()
        out[p] = n
    return out

