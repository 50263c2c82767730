"""The binding of commands to player symbols (C16).

One run per command c.  The debug file is abstract: any number of lines of every kind cc65 writes, among them symbols of
any other name, in any order, and at most one line that defines the symbol of c.  The enumeration of commands is c and
"any other command"; containers filled from the file hold the entry of c and representatives of all other entries."""
import builtins
from specs.common import *
from pyvc import tstr as T, opencol as O

# keywords of cc65 debug files other than sym
KEYWORDS = ("version", "info", "csym", "file", "lib", "line", "mod", "scope", "seg", "span", "type")
# fields of symbol lines after the name: every optional field occurs in one form and is missing in another
LABEL = "addrsize=,scope=,def=,val,seg=,type="
CHEAP = "addrsize=,size=,parent=,def=,ref=,val,seg=,type="
EQUATE = "addrsize=,scope=,def=,ref=,val,type=,exp="
FORMS = (LABEL, CHEAP, EQUATE)


def symline(name, fields, val):
    parts = ["sym\tid=", T.Atom("id", no=",= \t\n", nonempty=True), ',name="', name, '"']
    for f in fields.split(","):
        if f == "val":
            parts += [",val=0x", val]
        else:
            parts += ["," + f, T.Atom(f[:-1], no=",= \t\n", nonempty=True)]
    return T.TStr(*parts)


class Lines(object):
    """What one can do with the open debug file."""

    def __init__(self, lines, log):
        self.lines, self.log = lines, log

    def read(self, *a):
        if a:
            raise Unsupported("partial read")
        return Text(self.lines)

    def readlines(self):
        return View_nl(self.lines)

    def symiter(self):
        return View_nl(self.lines).symiter()

    def __iter__(self):
        raise Unsupported("native iteration over the file")

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "lines"))


def View_nl(v):
    return O.View([T.TStr(x, "\n") for x in v.definite],
                  [O.Rep(T.TStr(r.x, "\n"), r.names) for r in v.reps])


class Text(object):
    def __init__(self, lines):
        self.lines = lines

    def split(self, sep=None, maxsplit=-1):
        if sep != "\n" or maxsplit != -1:
            raise Unsupported("split of the file at %r" % (sep,))
        return self.lines.symlist()

    def splitlines(self, *a):
        if a:
            raise Unsupported("splitlines")
        return self.lines.symlist()

    def strip(self, *a):
        return self

    rstrip = lstrip = strip

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "text"))


def lines(names, tracked, forms):
    """The lines of the file: the tracked one (if any) and representatives of all others."""
    reps = [T.TStr("")]
    for k in KEYWORDS:
        reps.append(T.TStr(k, "\t", T.Atom("rest", no="\n")))
    n = names[0]
    for f in forms:
        h = lambda: T.Hex(V.ENG.fresh_int("other_value", 1, 0xffff))
        reps.append(symline(T.TStr("op_", T.Atom("sym", no=',= \t\n"', nonempty=True, free=True, notin=(n,))), f, h()))
        reps.append(symline(T.Atom("label", no=',= \t\n"', nonempty=True, free=True, notin=("op_" + n,),
                                   notstart=("op_",)), f, h()))
    return O.View([tracked] if tracked is not None else [], [O.Rep(r, names) for r in reps])


class Source(object):
    """open() of the code under test."""

    def __init__(self):
        self.lines = self.text = None

    def __call__(self, name, *a, **kw):
        e = V.ENG
        if e is None or not e.active:
            if self.text is not None:
                import io
                return io.StringIO(self.text)
            return builtins.open(os.path.join(REPO, name), *a, **kw)
        return Lines(self.lines, None)


def want(s, c):
    if c.name.startswith("TICK_"):
        _, t, _, p = c.name.split("_")
        return s.TICK_OPCODES[(int(t), int(p))]
    return getattr(s, {"HEADER": "Header", "TERMINATE": "Terminate", "NOP": "Nop", "ACK": "Ack"}[c.name])


def other_missing(x):
    """The error is about another command."""
    return isinstance(x, KeyError) and x.args and O.member_key(x.args[0])


def h_bound(s, src, c, cfg, forms=FORMS):
    cls = want(s, c)

    def f():
        e = V.ENG
        cfg.names = (c.name.lower(), c.name)
        real = s.OpcodeCommand
        cfg.enum = O.TrackedEnum(real, c)
        e.open = cfg
        e.setattr(s, "OpcodeCommand", cfg.enum)
        e.setattr(cls, "_START", None)
        v = e.fresh_int("value", 1, 0xffff)
        k = e.choose(len(forms) + 1, "symbol")
        line = symline("op_" + c.name.lower(), forms[k], T.Hex(v)) if k < len(forms) else None
        src.lines = lines(cfg.names, line, FORMS)
        r, x = outcome(s._fill_opcode_addresses)
        if line is None:
            e.prove("loading fails without the symbol of the command", r == "raise", "%s is missing" % c.name)
            return
        if r == "raise" and other_missing(x):
            return
        e.prove("loading succeeds when every symbol is there", r == "ok", "%s: %r" % (c.name, x))
        if r == "ok":
            e.cover("bound")
            e.prove("the command is bound to the value of its own symbol", V.eq(cls._START, v), "%s" % c.name)
    return f


def tasks(tier, jobs=8):
    src = Source()
    prog = env.transcoder(overrides={"builtins": {"open": src}})
    s = prog.load("opcodes")
    cs = list(s.OpcodeCommand)
    sites = {}

    def one(chk, c, forms):
        cfg = O.Open((), sites=sites)
        prog.engine(chk, "%s: " % c.name, max_paths=4000, max_seconds=100).run(h_bound(s, src, c, cfg, forms))

    def part(i):
        def f(chk):
            end = time.time() + 550
            for n in range(i, len(cs), jobs):
                guarded(chk, cs[n].name, lambda chk: one(chk, cs[n], FORMS))
                bad = [o for o in chk.obligations if o["status"] != "discharged"]
                if len(bad) > 2 or time.time() > end:
                    # enough for a report; the rest stays open
                    chk.undecided("commands", "%d commands not looked at" % len(range(n + jobs, len(cs), jobs)))
                    return
        return f
    return [("commands %d mod %d" % (i, jobs), part(i)) for i in range(jobs)] + [("import", h_import)]


def load(text):
    """Outcome of importing opcodes with this debug file."""
    src = Source()
    src.text = text
    return outcome(env.transcoder(overrides={"builtins": {"open": src}}).load, "opcodes")


def h_import(chk):
    """Importing the module runs the binding (evaluation: the binding itself is proved for every file)."""
    with builtins.open(os.path.join(REPO, "player/iivision.dbg")) as f:
        real = f.read()
    import re
    addr = {m.group(1): int(m.group(2), 16) for m in re.finditer(r'^sym\t.*name="op_(\w+)",.*val=0x([0-9A-F]+)', real, re.M)}
    k, s = load(real)
    chk.ob("import: succeeds with the player's debug file", k == "ok", detail=repr(s), backend="evaluation")
    if k == "ok":
        bad = [c.name for c in s.OpcodeCommand if want(s, c)._START != addr.get(c.name.lower())]
        chk.ob("import: every command has its address", not bad, detail="%s" % bad[:5], backend="evaluation")
    for n in ("nop", "tick_66_page_63"):
        k, s = load("\n".join(x for x in real.split("\n") if '"op_%s"' % n not in x))
        chk.ob("import: fails without the symbol of %s" % n, k == "raise", backend="evaluation")
