"""C16 on the real code: import opcodes next to debug files with permuted, additional, missing and look-alike symbols."""
import importlib
import os
import random
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

R = lib.rnd(16)
work = tempfile.mkdtemp(prefix="c16")
os.mkdir(work + "/player")
os.chdir(work)


def fail(what, **kw):
    os.chdir("/")
    shutil.rmtree(work)
    lib.fail(what, **kw)


def names():
    out = ["header", "terminate", "nop", "ack"]
    return out + ["tick_%d_page_%d" % (t, p) for t in range(4, 68, 2) for p in range(32, 64)]


NAMES = names()


def line(i, name, val, form):
    s = "sym\tid=%d,name=\"%s\",addrsize=absolute" % (i, name)
    if form % 3 == 1:
        s += ",size=2,parent=%d" % R.randrange(99)
    else:
        s += ",scope=%d" % R.randrange(3)
    s += ",def=%d" % R.randrange(2000)
    if form % 2:
        s += ",ref=1+2+3"
    if val is not None:
        s += ",val=0x%X" % val
    if form % 3 != 2:
        s += ",seg=%d" % R.randrange(9)
    return s + (",type=lab" if val is not None else ",type=imp,exp=3")


OTHER = ["version\tmajor=2,minor=0", "info\tcsym=0,file=6,sym=2344,type=8", "file\tid=0,name=\"main.s\",size=33654,mod=0",
         "csym\tid=1,name=\"op_nop\",val=0x1234", "lib\tid=0,name=\"op_ack\"", "line\tid=0,file=0,line=1235,span=4262",
         "mod\tid=0,name=\"op_nop\",file=0", "scope\tid=0,name=\"\",mod=0", "seg\tid=0,name=\"CODE\",start=0x4000,val=0x77",
         "span\tid=0,seg=0,start=0", "type\tid=7,val=\"800121\"", ""]


def build(values, extra, forms):
    ls = [line(i, "op_" + n, v, R.choice(forms)) for i, (n, v) in enumerate(values.items())]
    ls += [line(5000 + i, n, v, R.choice(forms)) for i, (n, v) in enumerate(extra)]
    ls += [R.choice(OTHER) for _ in range(40)]
    R.shuffle(ls)
    return "\n".join(ls) + ("\n" if R.random() < .7 else "")


def load(text):
    with open("player/iivision.dbg", "w") as f:
        f.write(text)
    for m in ("opcodes", "symbol_table"):
        sys.modules.pop(m, None)
    try:
        return importlib.import_module("opcodes"), None
    except Exception as x:
        return None, x


def classes(o):
    m = {"header": o.Header, "terminate": o.Terminate, "nop": o.Nop, "ack": o.Ack}
    for (t, p), c in o.TICK_OPCODES.items():
        m["tick_%d_page_%d" % (t, p)] = c
    return m


def lookalikes():
    out = []
    for n in R.sample(NAMES, 60) + NAMES[:4]:
        out.append((R.choice([
            "op_%s_", "op_%s_tail_1", "_op_%s", "op_%s0", "xop_%s", "op__%s", "%s", "op_op_%s", "OP_%s", "op_%s_end",
            "op", "op_", "@%s"]).replace("%s", n), R.randrange(1, 65536)))
    for n in R.sample(NAMES, 40) + NAMES[:4]:
        out.append(("op_" + n + R.choice("$@.:?~!0_x") + R.choice(["", "1", "end", "op_nop"]), R.randrange(1, 65536)))
        out.append((R.choice("$@.:?~_x") + "op_" + n, R.randrange(1, 65536)))
        out.append(("op_" + n[:-1], R.randrange(1, 65536)))
        out.append(("op_" + n.upper(), R.randrange(1, 65536)))
        out.append(("Op_" + n, R.randrange(1, 65536)))
    for t, p in ((4, 6), (4, 3), (40, 32), (68, 32), (5, 40), (4, 64), (3, 32)):
        out.append(("op_tick_%d_page_%d" % (t, p), R.randrange(1, 65536)))
    seen, res = set(), []
    for n, v in out:
        if n not in seen and n[3:] not in NAMES or not n.startswith("op_") and n not in seen:
            seen.add(n)
            res.append((n, v))
    return res


def check(values, text, what):
    o, x = load(text)
    if o is None:
        fail("loading fails although every symbol is there", case=what, error=repr(x))
    for n, c in classes(o).items():
        if c._START != values[n]:
            fail("command bound to another value than that of its symbol", case=what, command=n, bound=c._START,
                 symbol=values[n])


try:
    for k in range(14):
        vs = R.sample(range(1, 65536), len(NAMES))
        if k == 1:
            vs = sorted(vs)
        elif k == 2:
            vs = sorted(vs, reverse=True)
        elif k == 3:
            vs = [R.choice((1, 0xff, 0x100, 0xff00, 0xffff)) for _ in vs]
        values = dict(zip(NAMES, vs))
        extra = lookalikes() if k % 2 else []
        if k % 3 == 0:
            extra += [("foo%d" % i, None) for i in range(9)]
        extra += [("@D", R.randrange(65536)) for _ in range(5)]
        check(values, build(values, extra, [0] if k < 4 else range(6)), "file %d" % k)
    todo = NAMES[:4] + [NAMES[4], NAMES[-1]] + R.sample(NAMES[4:], 60)
    for k, n in enumerate(todo):
        values = {m: v for m, v in zip(NAMES, R.sample(range(1, 65536), len(NAMES))) if m != n}
        extra = [] if k % 2 == 0 else lookalikes() + [("op_%s_" % n, 77), ("op_" + n.upper(), 78), ("_op_" + n, 79)]
        o, x = load(build(values, extra, range(6)))
        if o is not None:
            fail("loading succeeds although a symbol is missing", command=n, bound=classes(o)[n]._START)
    values = {}
    o, x = load("")
    if o is not None:
        fail("loading succeeds with an empty debug file")
    print("OK")
finally:
    os.chdir("/")
    shutil.rmtree(work)
