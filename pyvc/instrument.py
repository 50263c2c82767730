"""Mechanical instrumentation of /repo's Python source (AST to AST) and the module loader.

What the transformation does: loop heads, attribute stores, list/dict displays, formatted strings and the
builtins below are routed through hooks that behave exactly as Python does on concrete values.
Nothing is dropped except type annotations on local variables and the effect of print()."""
import ast
import builtins
import os
import sys
import types
from . import values as V
from . import engine as EN
from . import tstr
from .values import SymInt, SymBool, SymReal, FmtStr, Sym, Unsupported
from .engine import UNBOUND

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------------------------------ liveness
class Liveness(object):
    """Backward may-liveness of local names on the structured AST of one function."""

    def __init__(self, fn):
        self.loops = {}       # id(node) -> names live at the loop head
        self.yields = {}      # lineno -> names live after the yield
        self.lines = {}       # lineno -> names that may still be read while a statement on that line runs
        self.always = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) and n is not fn:
                for m in ast.walk(n):
                    if isinstance(m, ast.Name):
                        self.always.add(m.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always.update(n.names)
        self.handlers = []
        self.block(fn.body, set(), None, None)

    def uses(self, e):
        s = set()
        if e is None:
            return s
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                s.add(n.id)
        return s

    def expr(self, e, out):
        if e is None:
            return set(out)
        live = set(out) | self.uses(e)
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                if n is e:
                    # the value was computed before the function was left
                    live = set(out)
                for ln in range(n.lineno, (n.end_lineno or n.lineno) + 1):
                    self.yields[ln] = self.yields.get(ln, set()) | live | self.always
                if n is e:
                    live |= self.uses(e)
        return live

    def kill(self, t, out):
        """Store to target t: returns live set before the store."""
        if isinstance(t, ast.Name):
            return out - {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                out = self.kill(x, out)
            return out
        if isinstance(t, ast.Starred):
            return self.kill(t.value, out)
        return out | self.uses(t)

    def block(self, body, out, brk, cont):
        for s in reversed(body):
            out = self.stmt(s, out, brk, cont)
            for h in self.handlers:
                out = out | h
        return out

    def stmt(self, s, out, brk, cont):
        r = self.stmt_(s, out, brk, cont)
        first, last = s.lineno, s.end_lineno or s.lineno
        live = set(r)
        if isinstance(s, ast.For):
            last = s.iter.end_lineno
            live |= self.loops[id(s)]
        elif isinstance(s, (ast.While, ast.If)):
            last = s.test.end_lineno
        elif isinstance(s, ast.With):
            last = max(i.context_expr.end_lineno for i in s.items)
        elif isinstance(s, (ast.Try, ast.FunctionDef, ast.ClassDef)):
            last = first
        for ln in range(first, last + 1):
            self.lines[ln] = self.lines.get(ln, set()) | live | self.always
        return r

    def stmt_(self, s, out, brk, cont):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                out = self.kill(t, out)
            return self.expr(s.value, out)
        if isinstance(s, ast.AugAssign):
            o = self.expr(s.value, out)
            return o | self.uses(s.target) | ({s.target.id} if isinstance(s.target, ast.Name) else set())
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return self.expr(s.value, self.kill(s.target, out))
        if isinstance(s, (ast.Expr, ast.Return)):
            if isinstance(s, ast.Return):
                out = set()
            return self.expr(s.value, out)
        if isinstance(s, ast.Raise):
            return self.expr(s.exc, self.expr(s.cause, set()))
        if isinstance(s, ast.Assert):
            return self.expr(s.test, self.expr(s.msg, out))
        if isinstance(s, ast.If):
            return self.expr(s.test, self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont))
        if isinstance(s, ast.For):
            after = self.block(s.orelse, out, brk, cont)
            live = set(after)
            for _ in range(10):
                body = self.block(s.body, live, out, live)
                new = after | self.kill(s.target, body)
                if new <= live:
                    break
                live |= new
            self.loops[id(s)] = live | self.always
            return self.expr(s.iter, live)
        if isinstance(s, ast.While):
            after = self.block(s.orelse, out, brk, cont)
            live = set(after)
            for _ in range(10):
                new = self.expr(s.test, after | self.block(s.body, live, out, live))
                if new <= live:
                    break
                live |= new
            self.loops[id(s)] = live | self.always
            return live
        if isinstance(s, ast.Break):
            return set(brk or ())
        if isinstance(s, ast.Continue):
            return set(cont or ())
        if isinstance(s, ast.With):
            out = self.block(s.body, out, brk, cont)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    out = self.kill(it.optional_vars, out)
                out = self.expr(it.context_expr, out)
            return out
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, brk, cont)
            hs = set()
            for h in s.handlers:
                hs |= self.block(h.body, fin, brk, cont) | self.uses(h.type)
            if s.finalbody:
                hs |= fin
            els = self.block(s.orelse, fin, brk, cont)
            self.handlers.append(hs)
            r = self.block(s.body, els, brk, cont)
            self.handlers.pop()
            return r | hs
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return (out - {s.name}) | self.uses(s)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    out = out | self.uses(t)
            return out
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return out
        return out | {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}


# ------------------------------------------------------------------------------------------ transformer
class LoopInfo(object):
    def __init__(self, id, where, live, names, func):
        self.id, self.where, self.live, self.names, self.func = id, where, live, names, func


LOOPS = {}


def call(name, *args):
    return ast.Call(ast.Attribute(ast.Name("_vE_", ast.Load()), name, ast.Load()), list(args), [])


def const(v):
    return ast.Constant(v)


def nm(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


class Instr(ast.NodeTransformer):
    def __init__(self, modname, filename):
        self.mod, self.filename = modname, filename
        self.fn = []
        self.cls = None
        self.tmp = 0

    def fresh(self, p="_vt"):
        self.tmp += 1
        return "%s%d" % (p, self.tmp)

    # ---- functions
    def visit_FunctionDef(self, node):
        lv = Liveness(node)
        names = set(a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs)
        glob = set()

        def collect(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    names.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    names.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    glob.add(c.name)
                collect(c)
        collect(node)
        for ln, s in lv.yields.items():
            EN.Engine.yield_live[(self.filename, node.name, ln)] = s
        for ln, s in lv.lines.items():
            EN.Engine.line_live[(self.filename, node.name, ln)] = s
        self.fn_loop_index(node, node)
        for n, (a, b) in node._ranges.items():
            for ln in range(a, b + 1):
                EN.Engine.line_iters.setdefault((self.filename, node.name, ln), set()).add("_vit%d" % n)
        self.fn.append((node, lv, sorted(names - glob)))
        node.body = self.stmts(node.body)
        self.fn.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs:
            a.annotation = None
        return node

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                for x in r:
                    if not hasattr(x, "lineno"):
                        ast.copy_location(x, s)
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    # ---- loops
    def head(self, node, w, it, last):
        fn, lv, names = self.fn[-1]
        lid = "%s:%s:%d" % (self.mod, ".".join(f[0].name for f in self.fn), self.fn_loop_index(node))
        rg = fn._ranges
        me = rg.get(self.fn_loop_index(node), (0, 0))
        info = LoopInfo(lid, "%s %s loop %d" % (self.mod, fn.name, self.fn_loop_index(node)),
                        lv.loops.get(id(node), set(names)), names, fn.name)
        # iterators of this loop and the loops around it: those of other loops are dead at this head
        info.iters = {"_vit%d" % k for k, (a, b) in rg.items() if a <= me[0] and me[1] <= b}
        LOOPS[lid] = info
        items = [ast.NamedExpr(nm(w, True), call("headp", nm(it), ast.Call(nm("_vloc_"), [], []), const(tuple(names))))]
        for i, n in enumerate(names):
            items.append(ast.NamedExpr(nm(n, True), ast.Subscript(nm(w), const(i), ast.Load())))
        return lid, call("seq", *(items + [last]))

    def fn_loop_index(self, node, fn=None):
        fn = fn or self.fn[-1][0]
        if not hasattr(fn, "_loops"):
            fn._loops, fn._ranges = {}, {}
            k = 0
            for n in ast.walk(fn):
                pass
            def walk(n):
                nonlocal k
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                        continue
                    if isinstance(c, (ast.For, ast.While)):
                        k += 1
                        fn._loops[id(c)] = k
                        fn._ranges[k] = (c.lineno, c.end_lineno or c.lineno)
                    walk(c)
            walk(fn)
        return fn._loops.get(id(node), 0)

    def visit_For(self, node):
        if not self.fn:
            self.generic_visit(node)
            return node
        idx = self.fn_loop_index(node)
        w, it = self.fresh("_vw"), "_vit%d" % idx
        lid, cond = self.head(node, w, it, ast.Call(ast.Attribute(nm(it), "advance", ast.Load()), [], []))
        enter = ast.Assign([nm(it, True)], call("enter", const(lid), self.visit(node.iter)))
        first = self.visit(ast.Assign([node.target], ast.Attribute(nm(it), "value", ast.Load())))
        body = (first if isinstance(first, list) else [first]) + self.stmts(node.body)
        wh = ast.While(cond, body, self.stmts(node.orelse))
        return [enter, wh]

    def visit_While(self, node):
        if not self.fn:
            self.generic_visit(node)
            return node
        idx = self.fn_loop_index(node)
        w, it = self.fresh("_vw"), "_vit%d" % idx
        lid, cond = self.head(node, w, it, self.visit(node.test))
        enter = ast.Assign([nm(it, True)], call("enter_while", const(lid)))
        return [enter, ast.While(cond, self.stmts(node.body), self.stmts(node.orelse))]

    # ---- stores
    def mangled(self, a):
        """Name of a private attribute as the compiler mangles it in a class."""
        if self.cls and a.startswith("__") and not a.endswith("__") and self.cls.strip("_"):
            return "_%s%s" % (self.cls.lstrip("_"), a)
        return a

    def has_attr(self, t):
        return isinstance(t, ast.Attribute) or (isinstance(t, (ast.Tuple, ast.List)) and any(
            self.has_attr(x) for x in t.elts)) or (isinstance(t, ast.Starred) and self.has_attr(t.value))

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if not any(self.has_attr(t) for t in node.targets):
            node.targets = [self.visit(t) for t in node.targets]
            return node
        v = self.fresh()
        out = [ast.Assign([nm(v, True)], node.value)]
        for t in node.targets:
            out.extend(self.store(t, nm(v)))
        return out

    def store(self, t, val):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(call("setattr", self.visit(t.value), const(self.mangled(t.attr)), val))]
        if isinstance(t, (ast.Tuple, ast.List)) and self.has_attr(t):
            names = [self.fresh() for _ in t.elts]
            out = [ast.Assign([ast.Tuple([ast.Starred(nm(n, True), ast.Store()) if isinstance(x, ast.Starred)
                                          else nm(n, True) for n, x in zip(names, t.elts)], ast.Store())], val)]
            for n, x in zip(names, t.elts):
                out.extend(self.store(x.value if isinstance(x, ast.Starred) else x, nm(n)))
            return out
        return [ast.Assign([self.visit(t)], val)]

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.Assign([node.target], node.value))

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Attribute):
            node.target = self.visit(node.target)
            return node
        o, v = self.fresh(), self.fresh()
        return [ast.Assign([nm(o, True)], self.visit(node.target.value)),
                ast.Assign([nm(v, True)], ast.Attribute(nm(o), node.target.attr, ast.Load())),
                ast.AugAssign(nm(v, True), node.op, node.value),
                ast.Expr(call("setattr", nm(o), const(self.mangled(node.target.attr)), nm(v)))]

    # ---- expressions
    def visit_YieldFrom(self, node):
        node.value = call("yf", self.visit(node.value))
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call("mklist", node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return call("mkdict", node)

    def visit_ListComp(self, node):
        if len(node.generators) == 1 and not node.generators[0].is_async and self.fn:
            g = node.generators[0]
            args = ast.arguments([], [ast.arg("__x")], None, [], [], None, [])
            tgt = g.target
            if isinstance(tgt, ast.Name):
                names = [tgt.id]
                unpack = None
            elif isinstance(tgt, ast.Tuple) and all(isinstance(x, ast.Name) for x in tgt.elts):
                names = [x.id for x in tgt.elts]
                unpack = True
            else:
                names = None
            walrus = any(isinstance(n, (ast.NamedExpr, ast.Yield)) for n in ast.walk(node))
            if names is not None and not walrus:
                def lam(e):
                    e = self.visit(e)
                    a = ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])
                    return ast.Lambda(a, e)
                import copy
                elt = lam(copy.deepcopy(node.elt))
                conds = ast.List([lam(copy.deepcopy(c)) for c in g.ifs], ast.Load())
                return call("listcomp", elt, self.visit(g.iter), conds, const(bool(unpack)))
        self.generic_visit(node)
        return call("mklist", node)

    def visit_DictComp(self, node):
        if len(node.generators) == 1 and self.fn:
            pair = ast.copy_location(ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators), node)
            import copy
            v = self.visit_ListComp(copy.deepcopy(pair))
            if isinstance(v, ast.Call) and v.func.attr == "listcomp":
                return call("dictcomp", v)
        self.generic_visit(node)
        return call("mkdict", node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return call("mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(p)
            else:
                spec = p.format_spec
                sp = const("")
                if spec is not None:
                    sp = spec if all(isinstance(x, ast.Constant) for x in spec.values) else self.visit(spec)
                parts.append(ast.Tuple([self.visit(p.value), const(p.conversion), sp], ast.Load()))
        return call("fstr", ast.Tuple(parts, ast.Load()))

    EAGER = ("tuple", "list", "sum", "sorted", "min", "max", "bytes", "bytearray")

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in self.EAGER and len(node.args) == 1 and isinstance(
                node.args[0], ast.GeneratorExp) and self.fn:
            g = node.args[0]
            node.args[0] = ast.copy_location(ast.ListComp(g.elt, g.generators), g)
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "format" and isinstance(
                node.func.value, ast.Constant):
            return call("format", node.func.value, ast.Tuple(node.args, ast.Load())) if not node.keywords else node
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1:
            return call("join", node.func.value, node.args[0])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.mod in STR_INDEX and isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(call("sub", node.value, node.slice), node)
        return node

    def visit_ClassDef(self, node):
        save, self.fn, cls, self.cls = self.fn, [], self.cls, node.name
        node.body = self.stmts(node.body)
        self.fn, self.cls = save, cls
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node


STR_INDEX = {"make_data_tables"}      # modules that index strings with unknown numbers


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    t = Instr(modname, filename)
    tree.body = t.stmts(tree.body)
    ast.fix_missing_locations(tree)
    # statements synthesised in place of a node inherit no line: spread parents' lines
    return tree


# ------------------------------------------------------------------------------------------ runtime
class RList(list):
    """Python list whose mutations are undone between paths."""

    def _log(self):
        e = V.ENG
        if e is not None and e.active:
            old = list.copy(self)
            e.log(lambda: list.__setitem__(self, slice(None), old))
            if id(self) in e.globals_roots:
                e.mutated_globals[id(self)] = self

    def append(self, x):
        self._log()
        list.append(self, x)

    def extend(self, x):
        self._log()
        list.extend(self, x)

    def insert(self, i, x):
        self._log()
        list.insert(self, i, x)

    def pop(self, *a):
        self._log()
        return list.pop(self, *a)

    def remove(self, x):
        self._log()
        for i, y in enumerate(list(self)):
            if V.eq(y, x) if not isinstance(y, (int, str)) else y == x:
                list.__delitem__(self, i)
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        self._log()
        list.clear(self)

    def sort(self, key=None, reverse=False):
        self._log()
        list.__setitem__(self, slice(None), sym_sorted(list(self), key, reverse))

    def reverse(self):
        self._log()
        list.reverse(self)

    def __iadd__(self, x):
        self._log()
        list.extend(self, x)
        return self

    def __setitem__(self, i, x):
        self._log()
        if isinstance(i, Sym) or hasattr(i, "__np_scalar__"):
            i = V.as_int(i)
            if isinstance(i, SymInt):
                for k in range(len(self)):
                    list.__setitem__(self, k, merge(V.mkbool(V.boolterm(V.lor(i == k, i == k - len(self)))), x,
                                                    list.__getitem__(self, k)))
                return
        list.__setitem__(self, i, x)

    def __delitem__(self, i):
        self._log()
        list.__delitem__(self, i)

    def __getitem__(self, i):
        if isinstance(i, Sym) or hasattr(i, "__np_scalar__"):
            return sym_index(self, V.as_int(i))
        r = list.__getitem__(self, i)
        return RList(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return RList(list.__add__(self, list(o))) if isinstance(o, list) else NotImplemented

    def __mul__(self, n):
        return RList(list.__mul__(self, n))

    def copy(self):
        return RList(self)

    def __contains__(self, x):
        return contains(list(self), x)


def contains(seq, x):
    return bool(V.lor(*[V.eq(y, x) for y in seq])) if seq else False


def merge(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if EN.same(a, b):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if hasattr(a, "__np_scalar__") and hasattr(b, "__np_scalar__") and a.__np_scalar__ == b.__np_scalar__:
        return a.like(V.ite(c, a.v, b.v))
    if isinstance(a, (int, float, Sym)) and isinstance(b, (int, float, Sym)) and not isinstance(
            a, FmtStr) and not isinstance(b, FmtStr):
        return V.ite(c, a, b)
    return a if bool(c) else b


def sym_index(seq, i):
    n = len(seq)
    if isinstance(i, int):
        return list.__getitem__(seq, i)
    if not bool(V.land(i >= -n, i < n)):
        raise IndexError("list index out of range")
    if i.lo is None or i.lo < 0:
        i = V.ite(i < 0, i + n, i)
    r = None
    vals = list(seq)
    ok = all(isinstance(x, (int, float, Sym)) or hasattr(x, "__np_scalar__") for x in vals)
    if not ok and n > 64:
        raise Unsupported("symbolic index into a long list of objects")
    if not ok:
        return vals[V.ENG.concretize(i)]
    for k in range(n - 1, -1, -1):
        r = vals[k] if r is None else merge(i == k, vals[k], r)
    return r


def sym_sorted(seq, key=None, reverse=False):
    ks = [key(x) if key else x for x in seq]
    out, outk = [], []
    for x, k in zip(seq, ks):
        j = len(out)
        while j > 0 and bool(lt(k, outk[j - 1]) if not reverse else lt(outk[j - 1], k)):
            j -= 1
        out.insert(j, x)
        outk.insert(j, k)
    return RList(out)


def lt(a, b):
    """a < b with symbolic lexicographic order on tuples."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        r = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            r = V.lor(lt(x, y), V.land(V.eq(x, y), r))
        return r
    return a < b


class RDict(dict):
    def _log(self):
        e = V.ENG
        if e is not None and e.active:
            old = dict.copy(self)

            def undo():
                dict.clear(self)
                dict.update(self, old)
            e.log(undo)
            if id(self) in e.globals_roots:
                e.mutated_globals[id(self)] = self

    def _key(self, k):
        if hasattr(k, "__np_scalar__"):
            k = k.v if not isinstance(k.v, Sym) else V.as_int(k)
        if isinstance(k, tuple) and any(hasattr(x, "__np_scalar__") for x in k):
            k = tuple((V.as_int(x) if hasattr(x, "__np_scalar__") else x) for x in k)
        return k

    symkeys = False

    def _sym(self, k):
        ks = isinstance(k, Sym) or (isinstance(k, tuple) and any(isinstance(x, Sym) for x in k))
        return ks or self.symkeys

    def _find(self, k):
        for x in list(dict.keys(self)):
            r = V.eq(x, k) if isinstance(x, (Sym, tuple)) or isinstance(k, (Sym, tuple)) else x == k
            if r is not False and bool(r):
                return x
        return UNBOUND

    def __setitem__(self, k, v):
        self._log()
        k = self._key(k)
        if self._sym(k):
            f = self._find(k)
            k = k if f is UNBOUND else f
            if isinstance(k, Sym) or isinstance(k, tuple):
                self.symkeys = True
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        k = self._key(k)
        if self._sym(k):
            f = self._find(k)
            if f is UNBOUND:
                raise KeyError(k)
            k = f
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        k = self._key(k)
        if self._sym(k):
            return self._find(k) is not UNBOUND
        return dict.__contains__(self, k)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def __delitem__(self, k):
        self._log()
        k = self._key(k)
        if self._sym(k):
            k = self._find(k)
        dict.__delitem__(self, k)

    def pop(self, k, *a):
        self._log()
        return dict.pop(self, k, *a)

    def update(self, *a, **kw):
        self._log()
        dict.update(self, *a, **kw)

    def clear(self):
        self._log()
        dict.clear(self)


class GrowList(object):
    """List built by append only, under the element contract spec(k): the k-th element equals spec(k).

    Every append is an obligation; the length may be generalised by a loop, the contents then are what the
    contract says."""

    def __init__(self, spec, site):
        self.spec, self.n, self.site = spec, 0, site

    def append(self, x):
        e = V.ENG
        e.log_attr(self, "n")
        v = x.value if hasattr(x, "__symenum__") or isinstance(x, EN.enum.Enum) else x
        e.prove("list element satisfies its contract", V.eq(v, self.spec(self.n)))
        like = type(x) if isinstance(x, EN.enum.Enum) else x.cls if hasattr(x, "__symenum__") else None
        if e.grow_like.setdefault(self.site, like) is not like:
            raise Unsupported("list with elements of several types")
        self.n = self.n + 1

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def elem(self, k):
        v = self.spec(k)
        if self.site not in V.ENG.grow_like:
            raise Unsupported("element type of a generalised list is unknown")
        like = V.ENG.grow_like[self.site]
        return like(v) if like is not None else v

    def __symlen__(self):
        return self.n

    def symtuple(self):
        return self

    symlist = symtuple

    def symmap(self, f):
        return MapSeq(self, f)

    def symiter(self):
        return SeqIter(self)

    def __getitem__(self, i):
        i = V.as_int(i)
        if not bool(V.land(i >= 0, i < self.n)):
            raise IndexError("list index out of range")
        return self.elem(i)

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "grow"))
        slots[path + ("n",)] = EN.Slot(self.n, "leaf", self.setn)

    def setn(self, v):
        V.ENG.log_attr(self, "n")
        V.ENG.assume(V.boolterm(v >= 0))
        self.n = v


class MapSeq(GrowList):
    def __init__(self, base, f):
        self.base, self.f = base, f

    @property
    def n(self):
        return self.base.n

    def elem(self, k):
        return self.f(self.base.elem(k))

    def append(self, x):
        raise Unsupported("append to a mapped sequence")

    def __walk__(self, path, slots, sig, node):
        node(path + ("base",), self.base, None)


class SeqIter(object):
    def __init__(self, seq):
        self.seq, self.i = seq, 0

    def advance(self, act):
        V.ENG.symdec += 1
        if not bool(V.as_int(self.i) < self.seq.n):
            return False
        act.value = self.seq.elem(self.i)
        self.i = self.i + 1
        return True

    def __walk__(self, path, slots, sig, node):
        slots[path + ("i",)] = EN.Slot(self.i, "leaf", lambda v: setattr(self, "i", v))
        node(path + ("seq",), self.seq, None)


class SymSeq(object):
    """Abstract sequence protocol: has(i), at(i), optional length."""


class Activation(object):
    """One run of a loop."""

    def __init__(self, info, mode, it=None):
        self.info, self.mode, self.it = info, mode, it
        self.count, self.symdec, self.unbounded, self.stuck, self.peels = 0, V.ENG.symdec if V.ENG else 0, False, 0, 0
        self.seen = {}
        self.value = None

    def advance(self):
        if self.mode == "native" or self.mode == "gen":
            try:
                self.value = next(self.it)
            except StopIteration:
                return False
            return True
        return self.it.advance(self)

    def __walk__(self, path, slots, sig, node):
        if self.mode == "native":
            sig.append((path, "native", self.count))
        elif self.it is not None:
            node(path + ("it",), self.it, None)


class RangeIter(object):
    """Iterator over range(start, stop, step) with unknown bounds."""

    def __init__(self, start, stop, step):
        self.start, self.i, self.stop, self.step = start, start, stop, step

    def set(self, v):
        """Generalise the position: an iterator of a range only takes these values."""
        if self.step > 0:
            V.ENG.assume(V.boolterm(V.land(v >= self.start, V.lor(V.eq(v, self.start), v < self.stop + self.step))))
            if self.step > 1:
                V.ENG.assume(V.boolterm(V.eq((v - self.start) % self.step, 0)))
        else:
            V.ENG.assume(V.boolterm(V.land(v <= self.start, V.lor(V.eq(v, self.start), v > self.stop + self.step))))
        self.i = v

    def advance(self, act):
        V.ENG.symdec += 1
        c = (self.i < self.stop) if self.step > 0 else (self.i > self.stop)
        if not bool(c):
            return False
        act.value = self.i
        self.i = self.i + self.step
        return True

    def __walk__(self, path, slots, sig, node):
        slots[path + ("i",)] = EN.Slot(self.i, "leaf", self.set)
        slots[path + ("stop",)] = EN.Slot(self.stop, "leaf", None)


class SymRange(object):
    def __init__(self, *a):
        a = [V.as_int(x) for x in a]
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if not isinstance(self.step, int) or self.step == 0:
            raise Unsupported("symbolic range step")

    def symiter(self):
        return RangeIter(self.start, self.stop, self.step)

    def __symlen__(self):
        if self.step == 1:
            n = self.stop - self.start
            return V.ite(n > 0, n, 0)
        raise Unsupported("length of a symbolic range with a step")

    def __iter__(self):
        # native consumption: only when the length is concrete on this path
        i = self.start
        n = 0
        while bool(i < self.stop if self.step > 0 else i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 300:
                raise Unsupported("native iteration over a symbolic range")


class EnumIter(object):
    def __init__(self, it, start):
        self.it, self.i = it, start

    def advance(self, act):
        if hasattr(self.it, "advance"):
            if not self.it.advance(act):
                return False
            v = act.value
        else:
            try:
                v = next(self.it)
            except StopIteration:
                return False
        act.value = (self.i, v)
        self.i = self.i + 1
        return True

    def __walk__(self, path, slots, sig, node):
        slots[path + ("i",)] = EN.Slot(self.i, "leaf", lambda v: setattr(self, "i", v))
        node(path + ("it",), self.it, None)


class SymEnum(object):
    def __init__(self, base, start):
        self.base, self.start = base, start

    def symiter(self):
        b = self.base
        return EnumIter(b.symiter() if hasattr(b, "symiter") else iter(b), self.start)

    def __iter__(self):
        raise Unsupported("native iteration over an abstract sequence")


BIG = 70000


class Runtime(object):
    """The object called __E in instrumented modules."""

    seq = staticmethod(EN.Engine.seq)

    @staticmethod
    def setattr(o, k, v):
        e = V.ENG
        if e is not None:
            e.setattr(o, k, v)
        else:
            setattr(o, k, v)

    @staticmethod
    def enter(lid, it):
        info = LOOPS[lid]
        if hasattr(it, "symiter"):
            return Activation(info, "sym", it.symiter())
        if isinstance(it, types.GeneratorType):
            return Activation(info, "gen", it)
        if isinstance(it, EnumGen):
            a = Activation(info, "sym" if hasattr(it.base, "symiter") else "gen", None)
            if isinstance(it.base, types.GeneratorType) or hasattr(it.base, "symiter"):
                a.it = EnumIter(it.base.symiter() if hasattr(it.base, "symiter") else it.base, it.start)
                a.mode = "sym" if hasattr(it.base, "symiter") else "geni"
                return a
            return Activation(info, "native", iter(enumerate(it.base, it.start)))
        return Activation(info, "native", iter(it))

    @staticmethod
    def enter_while(lid):
        return Activation(LOOPS[lid], "while")

    @staticmethod
    def headp(act, locs, names):
        e = V.ENG
        if e is not None and e.active:
            e.on_time()
        if e is not None and act.mode != "native":
            repl = e.head(act, locs, sys._getframe(1))
            if repl:
                return tuple(repl[n] if n in repl else locs.get(n, UNBOUND) for n in names)
        else:
            act.count += 1
        return tuple([locs.get(n, UNBOUND) for n in names])

    @staticmethod
    def yf(x):
        if hasattr(x, "symiter"):
            return V.ENG.helpers["iterate"](x)
        return x

    @staticmethod
    def mklist(x):
        e = V.ENG
        if not x and e is not None and e.active and e.grow is not None:
            f = sys._getframe(1)
            return GrowList(e.grow, (f.f_code.co_filename, f.f_lineno))
        if e is not None and e.active and e.open:
            from . import opencol
            f = sys._getframe(1)
            r = opencol.OList((f.f_code.co_filename, f.f_lineno))
            for y in x:
                r.append(y)
            return r
        return RList(x)

    @staticmethod
    def mkdict(x):
        e = V.ENG
        if e is not None and e.active and e.open:
            from . import opencol
            f = sys._getframe(1)
            d = opencol.ODict((f.f_code.co_filename, f.f_lineno))
            for k, v in x.items():
                d[k] = v
            return d
        d = RDict()
        dict.update(d, x)
        return d

    @staticmethod
    def dictcomp(pairs):
        if hasattr(pairs, "symmap"):
            from . import opencol
            d = opencol.ODict()
            d.addpairs(pairs)
            d.reps()
            return d
        d = Runtime.mkdict({})
        for k, v in pairs:
            d[k] = v
        return d

    @staticmethod
    def listcomp(f, it, conds, unpack):
        if hasattr(it, "symmap") and getattr(it, "symfilter", False):
            return it.symmap((lambda x: f(*x)) if unpack else f, [(lambda x, c=c: c(*x)) if unpack else c for c in conds])
        if hasattr(it, "symmap"):
            if conds:
                raise Unsupported("filtered comprehension over an abstract sequence")
            return it.symmap((lambda x: f(*x)) if unpack else f)
        out = RList()
        for x in it:
            a = x if unpack else (x,)
            if all(c(*a) for c in conds):
                list.append(out, f(*a))
        return out

    @staticmethod
    def mod(a, b):
        if isinstance(a, (str, bytes)):
            args = b if isinstance(b, tuple) else (b,)
            if any(tstr.has(x) for x in args):
                return tstr.mod(a, args)
            if any(has_sym(x) for x in args):
                return FmtStr(a, tuple(args))
            return a % b
        if isinstance(a, FmtStr):
            return FmtStr("%", (a, b))
        return a % b

    @staticmethod
    def fstr(parts):
        if any(isinstance(p, tuple) and tstr.has(p[0]) for p in parts):
            return tstr.TStr(*[tstr.fmtspec(*p) if isinstance(p, tuple) else p for p in parts])
        if any(isinstance(p, tuple) and has_sym(p[0]) for p in parts):
            fmt, args = "", []
            for p in parts:
                if isinstance(p, tuple):
                    fmt += "{%d:%s}" % (p[1], p[2])
                    args.append(p[0])
                else:
                    fmt += p.replace("{", "{{")
            return FmtStr("f:" + fmt, args)
        out = ""
        for p in parts:
            if isinstance(p, tuple):
                v = p[0]
                v = repr(v) if p[1] == 114 else str(v) if p[1] == 115 else v
                out += format(v, p[2])
            else:
                out += p
        return out

    @staticmethod
    def format(s, args):
        if tstr.has(tuple(args)):
            return tstr.fmt_method(s, args)
        if any(has_sym(x) for x in args):
            return FmtStr("format:" + s, args)
        return s.format(*args)

    @staticmethod
    def sub(o, i):
        if type(o) is str and (isinstance(i, Sym) or hasattr(i, "__np_scalar__") and isinstance(i.v, Sym)):
            return tstr.char_of(o, V.as_int(i))
        return o[i]

    @staticmethod
    def join(s, seq):
        if hasattr(seq, "__tlist__"):
            return tstr.join(s, seq)
        if isinstance(s, str):
            seq = list(seq)
            if any(isinstance(x, tstr.CStr) for x in seq):
                return tstr.CStr.join(s, seq)
            if tstr.has(seq):
                return tstr.join(s, seq)
            if any(has_sym(x) for x in seq):
                return FmtStr("join:" + s, seq)
            return s.join(seq)
        return s.join(seq)


def has_sym(x):
    if hasattr(x, "__np_scalar__"):
        return isinstance(x.v, Sym)
    return isinstance(x, Sym) or hasattr(x, "__symval__") or (
        isinstance(x, (tuple, list)) and any(has_sym(y) for y in x))


class EnumGen(object):
    def __init__(self, base, start):
        self.base, self.start = base, start

    def __iter__(self):
        return iter(enumerate(self.base, self.start))

    def __next__(self):
        if not hasattr(self, "_it"):
            self._it = iter(self)
        return next(self._it)


# ------------------------------------------------------------------------------------------ builtins shims
class IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SymInt, SymBool))

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SymReal):
            return V.real_trunc(x)
        if isinstance(x, (SymInt, SymBool)):
            return V.as_int(x)
        if hasattr(x, "__np_scalar__"):
            return x.to_int()
        if hasattr(x, "__tstr__"):
            return x.toint(*(a or (10,)))
        if hasattr(x, "__symint__"):
            return V.as_int(x)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    __hash__ = type.__hash__


class sint(metaclass=IntMeta):
    from_bytes = builtins.int.from_bytes


class FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SymReal))

    def __call__(cls, x=0.0):
        if hasattr(x, "__symfloat__"):
            return x.__symfloat__()
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(V.realterm(x))
        if hasattr(x, "__np_scalar__"):
            return SymReal(V.realterm(x)) if isinstance(x.v, Sym) else builtins.float(x.v)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    __hash__ = type.__hash__


class sfloat(metaclass=FloatMeta):
    pass


def unshim(t):
    if t is sint:
        return (builtins.int, SymInt)
    if t is sfloat:
        return (builtins.float, SymReal)
    if t is builtins.bool:
        return (builtins.bool, SymBool)
    if t is builtins.str:
        return (builtins.str, FmtStr)
    if isinstance(t, tuple):
        r = ()
        for x in t:
            u = unshim(x)
            r += u if isinstance(u, tuple) else (u,)
        return r
    return t


def s_isinstance(o, t):
    return isinstance(o, unshim(t))


def s_len(x):
    if hasattr(x, "__symlen__"):
        return x.__symlen__()
    return len(x)


def s_range(*a):
    a = [V.as_int(x) if not isinstance(x, float) else x for x in a]
    if any(isinstance(x, Sym) for x in a):
        return SymRange(*a)
    r = range(*a)
    e = V.ENG
    if len(r) > BIG and e is not None and e.active:
        return SymRange(*a)
    return r


def s_enumerate(x, start=0):
    if hasattr(x, "symiter"):
        return SymEnum(x, start)
    return EnumGen(x, start)


def _minmax(name, pick):
    nat = getattr(builtins, name)

    def f(*a, **kw):
        xs = list(a[0]) if len(a) == 1 else list(a)
        key = kw.get("key")
        if not any(has_sym(x) for x in xs) and key is None:
            return nat(*a, **kw)
        if not xs:
            return nat(*a, **kw)
        best = xs[0]
        for x in xs[1:]:
            c = pick(key(x), key(best)) if key else pick(x, best)
            best = merge(c, x, best) if not isinstance(c, bool) else (x if c else best)
        return best
    return f


s_min = _minmax("min", lambda x, b: lt(x, b))
s_max = _minmax("max", lambda x, b: lt(b, x))


def s_sorted(x, key=None, reverse=False):
    if hasattr(x, "symlist") and hasattr(x.symlist(), "symsorted"):
        return x.symlist().symsorted(key, reverse)
    xs = list(x)
    if any(has_sym(y) for y in xs):
        return sym_sorted(xs, key, reverse)
    return RList(sorted(xs, key=key, reverse=reverse))


def s_print(*a, **kw):
    return None


def s_list(x=()):
    if hasattr(x, "symlist"):
        return x.symlist()
    return RList(x)


def s_dict(*a, **kw):
    e = V.ENG
    if e is not None and e.active and e.open:
        from . import opencol
        f = sys._getframe(1)
        d = opencol.ODict((f.f_code.co_filename, f.f_lineno) if not a else None)
        d.update(*a, **kw)
        d.reps()
        return d
    d = RDict()
    dict.update(d, dict(*a, **kw))
    return d


def s_tuple(x=()):
    if hasattr(x, "symtuple"):
        return x.symtuple()
    return tuple(x)


def s_divmod(a, b):
    r = V.divmod_(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else divmod(a, b)
    return r


def s_abs(x):
    return abs(x)


def s_any(x):
    for y in x:
        if y:
            return True
    return False


def s_all(x):
    for y in x:
        if not y:
            return False
    return True


def s_sum(x, start=0):
    r = start
    for y in x:
        r = r + y
    return r


def s_round(x, n=None):
    if isinstance(x, Sym):
        raise Unsupported("round() of a symbolic number")
    return builtins.round(x, n) if n is not None else builtins.round(x)


class SymBytes(list):
    """bytearray/bytes with symbolic elements."""

    def extend(self, x):
        list.extend(self, x)


def s_bytearray(x=b"", *a):
    if hasattr(x, "__symbytes__"):
        return x.__symbytes__()
    if isinstance(x, (list, tuple)) and any(has_sym(y) for y in x):
        for y in x:
            if not bool(V.land(V.as_int(y) >= 0, V.as_int(y) <= 255)):
                raise ValueError("byte must be in range(0, 256)")
        return SymBytes([V.as_int(y) for y in x])
    return bytearray(x, *a)


class CallIter(object):
    """iter(f, sentinel)."""

    def __init__(self, f, sentinel):
        self.f, self.sentinel, self.done = f, sentinel, False

    def symiter(self):
        return self

    def __iter__(self):
        return self

    def __next__(self):
        if self.done:
            raise StopIteration
        v = self.f()
        if bool(V.eq(v, self.sentinel)):
            self.done = True
            raise StopIteration
        return v

    def advance(self, act):
        V.ENG.symdec += 1
        try:
            act.value = self.__next__()
        except StopIteration:
            return False
        return True

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "calliter", self.done))
        node(path + ("f",), self.f, None)


def s_iter(x, *a):
    return CallIter(x, a[0]) if len(a) == 1 else iter(x, *a)


def s_next(it, *d):
    if hasattr(it, "symnext"):
        try:
            return it.symnext()
        except StopIteration:
            if d:
                return d[0]
            raise
    return next(it, *d)


def s_locals():
    raise Unsupported("locals()")


BUILTINS = {
    "int": sint, "float": sfloat, "len": s_len, "range": s_range, "enumerate": s_enumerate, "min": s_min,
    "max": s_max, "sorted": s_sorted, "print": s_print, "list": s_list, "dict": s_dict, "tuple": s_tuple,
    "isinstance": s_isinstance, "divmod": s_divmod, "any": s_any, "all": s_all, "sum": s_sum, "round": s_round,
    "bytearray": s_bytearray, "bytes": s_bytearray, "next": s_next, "iter": s_iter,
}


# ------------------------------------------------------------------------------------------ loader
HELPER_SRC = '''
def iterate(s):
    for x in s:
        yield x
'''


class Program(object):
    """A set of instrumented modules loaded from /repo's current source."""

    def __init__(self, paths, stubs, overrides=None):
        self.paths, self.stubs = paths, dict(stubs)
        self.modules = {}
        self.filenames = set()
        self.sources = {}
        self.overrides = overrides or {}
        ns = self.module_ns("pyvc_helpers", "<pyvc helpers>")
        self.run_src(HELPER_SRC, "pyvc_helpers", "<pyvc helpers>", ns)
        self.helpers = {"iterate": ns["iterate"]}

    def module_ns(self, name, filename):
        b = dict(builtins.__dict__)
        b.update(BUILTINS)
        b["__import__"] = self.do_import
        b.update(self.overrides.get("builtins", {}))
        return {"__name__": name, "__file__": filename, "__builtins__": b, "_vE_": Runtime, "_vloc_": locals,
                "__package__": ""}

    def run_src(self, src, name, filename, ns):
        tree = transform(src, name, filename)
        code = compile(tree, filename, "exec")
        self.filenames.add(filename)
        exec(code, ns)

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split(".")[0]
        if name in self.stubs or top in self.stubs:
            return self.stubs[name] if (fromlist and name in self.stubs) else self.stubs.get(top, self.stubs.get(name))
        m = self.load(top)
        if m is not None:
            return m
        return __import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        for p in self.paths:
            fn = os.path.join(p, name + ".py")
            if os.path.exists(fn):
                m = types.ModuleType(name)
                m.__file__ = fn
                self.modules[name] = m
                src = open(fn).read()
                self.sources[fn] = src
                ns = self.module_ns(name, fn)
                m.__dict__.update(ns)
                tree = transform(src, name, fn)
                code = compile(tree, fn, "exec")
                self.filenames.add(fn)
                exec(code, m.__dict__)
                return m
        return None

    def engine(self, check, prefix="", **kw):
        e = EN.Engine(check, prefix, **kw)
        e.frames_ok = set(self.filenames)
        e.helpers = self.helpers
        e.program = self
        e.walk_modules = set(self.modules) | {"pyvc_helpers"}
        roots = {}
        for m in self.modules.values():
            collect_globals(m.__dict__, roots, set(self.modules), 0)
        e.globals_roots = roots
        return e


def collect_globals(d, roots, mods, depth):
    for k, v in list(d.items()):
        if k.startswith("__"):
            continue
        collect_obj(v, roots, mods, depth)


def collect_obj(v, roots, mods, depth):
    if id(v) in roots or depth > 6:
        return
    if isinstance(v, (RList, RDict)) or hasattr(v, "__np_array__") or (
            getattr(type(v), "__module__", None) in mods and hasattr(v, "__dict__")):
        roots[id(v)] = v
        if isinstance(v, RList) and len(v) < 5000:
            for x in list.__iter__(v):
                collect_obj(x, roots, mods, depth + 1)
        elif isinstance(v, RDict):
            for x in dict.values(v):
                collect_obj(x, roots, mods, depth + 1)
        elif hasattr(v, "__dict__") and not hasattr(v, "__np_array__"):
            for x in v.__dict__.values():
                collect_obj(x, roots, mods, depth + 1)
    elif isinstance(v, type) and v.__module__ in mods:
        roots[id(v)] = v
        for x in list(v.__dict__.values()):
            if not isinstance(x, (types.FunctionType, staticmethod, classmethod)):
                collect_obj(x, roots, mods, depth + 1)
