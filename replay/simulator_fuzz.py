"""Falsifier for C22, C23, C24: random access sequences on the real simulator with the real py65."""
import os
import sys
import lib
from lib import fail
sys.path.insert(0, os.path.join(lib.REPO, "simulator"))
sys.stdout = open(os.devnull, "w")
import machine
import memory
import uthernet
import apple2
from py65.memory import ObservableMemory

R = lib.rnd()
SW = {"80Store": (0xc000, 0xc001, 0xc018, 1), "RamRd": (0xc002, 0xc003, 0xc013, 1),
      "RamWrt": (0xc004, 0xc005, 0xc014, 1), "IntCxROM": (0xc006, 0xc007, 0xc015, 1),
      "AltZP": (0xc008, 0xc009, 0xc016, 1), "SlotC3ROM": (0xc00a, 0xc00b, 0xc017, 1),
      "80Col": (0xc00c, 0xc00d, 0xc01f, 1), "AltCharSet": (0xc00e, 0xc00f, 0xc01e, 1),
      "Text": (0xc050, 0xc051, 0xc01a, 0), "Mixed": (0xc052, 0xc053, 0xc01b, 0),
      "Page2": (0xc054, 0xc055, 0xc01c, 0), "Hires": (0xc056, 0xc057, 0xc01d, 0)}
SILENT = ("80Store", "RamRd", "RamWrt", "IntCxROM", "AltZP", "SlotC3ROM")
IO = {0xc030: "rw", 0xc095: "w", 0xc096: "w", 0xc094: "rw", 0xc097: "rw"}


def told(x):
    m = x.msg
    if isinstance(m, machine.AccessMode):
        return {machine.AccessMode.READ: "read", machine.AccessMode.WRITE: "write"}.get(m, "?")
    m = str(m).lower()
    return "write" if "wrote" in m or "writ" in m else "read" if "read" in m else m


def access(mem, a, v):
    try:
        if v is None:
            return "ok", mem[a]
        mem[a] = v
        return "ok", None
    except Exception as x:
        return "raise", x


def trapped(k, x, a, v, ctx):
    kind = "read" if v is None else "write"
    if k != "raise" or not isinstance(x, machine.TrapException):
        fail("a %s of $%04X is not trapped but %s" % (kind, a, "raises %r" % x if k == "raise" else "accepted"), **ctx)
    if x.address != a:
        fail("the trap of $%04X names address %r" % (a, x.address), **ctx)
    if told(x) != kind:
        fail("the trap of a %s of $%04X (value %r) reports %r" % (kind, a, v, str(x.msg)), **ctx)


def c22():
    at = {}
    for n, (c, s, r, w) in SW.items():
        at[c], at[s], at[r] = ("clear", n), ("set", n), ("status", n)
    vals = [None, 0, 1, 0x41, 0x7f, 0x80, 0xff]
    for rep in range(6):
        a2 = apple2.AppleII(uthernet.Uthernet(b""))
        a2.memory_manager.enable()
        if sorted(a2.soft_switches) != sorted(SW):
            fail("soft switches: %r" % sorted(a2.soft_switches))
        on = {n: False for n in SW}
        hist = []
        seq = [(a, v) for a in range(0xc000, 0xc100) for v in vals] if rep == 0 else [
            (R.choice(list(at)) if R.random() < 0.8 else R.randrange(0xc000, 0xc100), R.choice(vals))
            for _ in range(4000)]
        for a, v in seq:
            if a in (0xc094, 0xc097):
                continue
            hist.append(("%04X" % a, v))
            ctx = dict(history=hist[-12:])
            k, x = access(a2.memory, a, v)
            what, n = at.get(a, (None, None))
            if what in ("clear", "set"):
                if v is None and SW[n][3]:
                    trapped(k, x, a, v, ctx)
                else:
                    if k == "raise" and not (n in SILENT and isinstance(x, NotImplementedError)):
                        fail("access to $%04X (%s %s) raises %r" % (a, what, n, x), **ctx)
                    on[n] = what == "set"
            elif what == "status":
                if v is not None:
                    trapped(k, x, a, v, ctx)
                elif k == "raise" or not 0 <= x <= 255 or (x >= 128) != on[n]:
                    fail("status of %s is %r, the switch is %s" % (n, x, "on" if on[n] else "off"), **ctx)
            elif a in IO:
                if v is None and IO[a] == "w":
                    trapped(k, x, a, v, ctx)
                elif k == "raise":
                    fail("access to $%04X raises %r" % (a, x), **ctx)
            else:
                trapped(k, x, a, v, ctx)
            for m in SW:
                if bool(a2.soft_switches[m].state) != on[m]:
                    fail("after the access to $%04X switch %s is %r, expected %r" % (
                        a, m, a2.soft_switches[m].state, on[m]), **ctx)
    # dispatch through arbitrary tables and arbitrary switches
    M = machine.AccessMode
    for rep in range(3000):
        m = machine.Machine()
        calls = []
        ret = R.choice((None, 0, 7, 255))

        def cb(mode, value):
            calls.append((mode, value))
            return ret
        mode = R.choice((M.READ, M.WRITE, M.RW))
        fn = R.choice((cb, None))
        m.io_map = {5: (mode, "X", fn), 9: (M.RW, "Y", None)}
        a, v = R.choice((5, 6)), R.choice(vals)
        acc = M.READ if v is None else M.WRITE
        ctx = dict(table_mode=repr(mode), callback=fn is not None)
        try:
            k, x = "ok", (m.io_interceptor(a, v) if v is not None else m.io_interceptor(a))
        except Exception as y:
            k, x = "raise", y
        if a == 5 and acc & mode:
            if k != "ok":
                fail("permitted access raises %r" % x, **ctx)
            if fn and (calls != [(acc, v)] or x != ret):
                fail("callback calls %r, result %r instead of %r" % (calls, x, ret), **ctx)
            if not fn and (x is not None or calls):
                fail("result %r without a callback" % x, **ctx)
        else:
            trapped(k, x, a, v, ctx)
            if calls:
                fail("a trapped access calls back", **ctx)
        m = machine.Machine()
        got = []
        smode = R.choice((M.READ, M.WRITE, M.RW))
        use = R.random() < 0.5
        sw = machine.SoftSwitch("X", 10, 11, 12, smode, (lambda s: got.append(s)) if use else None)
        sw.register(m.io_map)
        on = False
        for _ in range(8):
            a, v = R.choice((10, 11, 12)), R.choice(vals)
            acc = M.READ if v is None else M.WRITE
            got[:] = []
            try:
                k, x = "ok", (m.io_interceptor(a, v) if v is not None else m.io_interceptor(a))
            except Exception as y:
                k, x = "raise", y
            ctx = dict(switch_mode=repr(smode), address=a, value=v)
            if a == 12:
                if v is not None:
                    trapped(k, x, a, v, ctx)
                elif k == "raise" or x is None or (x >= 128) != on or x > 255:
                    fail("status %r of a switch that is %s" % (x, on), **ctx)
                if got:
                    fail("reading the status calls back", **ctx)
            elif acc & smode:
                on = a == 11
                if k != "ok" or got != ([on] if use else []):
                    fail("set/clear: %r, callbacks %r" % (x, got), **ctx)
            else:
                trapped(k, x, a, v, ctx)
                if got:
                    fail("a trapped access calls back", **ctx)
            if bool(sw.state) != on:
                fail("switch state %r, expected %r" % (sw.state, on), **ctx)


def c23():
    for rep in range(60):
        regions, log = [], []
        spec = []
        for i in range(R.randrange(0, 5)):
            lo = R.choice((0, 0x100, 0x1ff, 0x8000, 0xfff0, R.randrange(65536)))
            hi = min(0xffff, lo + R.choice((0, 1, 15, 255, 0x300)))
            if spec and R.random() < 0.4:
                lo, hi = spec[-1][1:3]
                lo = max(0, lo + R.choice((-1, 0, 1, 3)))
                hi = max(lo, hi + R.choice((-3, -1, 0))) if lo <= hi else lo

            def hook(tag):
                def h(*a):
                    log.append((tag,) + a)
                return h
            ro = R.random() < 0.3
            rd = hook(("r", i)) if R.random() < 0.4 else None
            wr = hook(("w", i)) if R.random() < 0.4 else None
            pts = {}
            for _ in range(R.randrange(0, 3)):
                pts[R.choice((lo, hi, min(0xffff, hi + 1), R.randrange(65536), 0x1234))] = hook(("e", i))
            kw = dict(writable=not ro)
            if rd:
                kw["read_interceptor"] = rd
            if wr:
                kw["write_interceptor"] = wr
            if pts or R.random() < 0.5:
                kw["entrypoints"] = pts
            regions.append(memory.MemoryRegion("R%d" % i, lo, hi, **kw))
            spec.append((i, lo, hi, ro, rd is not None, wr is not None, pts))
        mm = memory.MemoryManager(regions)
        mm.enable()
        ctx = dict(regions=[("R%d" % s[0], "%04X-%04X" % s[1:3], "read-only" if s[3] else "", "read hook" if s[4] else "",
                             "write hook" if s[5] else "", ["%04X" % p for p in s[6]]) for s in spec])
        ref = {}
        cand = [x for s in spec for x in (s[1] - 1, s[1], s[1] + 1, s[2] - 1, s[2], s[2] + 1)] + [
            p for s in spec for p in s[6]] + [0, 0xffff]
        cand = [c for c in cand if 0 <= c <= 0xffff]

        def region(a):
            r = None
            for s in spec:
                if s[1] <= a <= s[2]:
                    r = s[0]
            return r
        for _ in range(400):
            a = R.choice(cand) if R.random() < 0.7 else R.randrange(65536)
            cov = [s for s in spec if s[1] <= a <= s[2]]
            log[:] = []
            t = R.randrange(3)
            if t == 0:
                v = R.randrange(256)
                k, x = access(mm.memory, a, v)
                ro = ["R%d" % s[0] for s in cov if s[3]]
                if ro:
                    if k != "raise" or not isinstance(x, memory.WriteProtectedException) or x.name not in ro \
                            or x.addr != a:
                        fail("a write to $%04X of %s gives %r" % (a, ro, x), **ctx)
                elif k == "raise":
                    fail("a write to $%04X raises %r" % (a, x), **ctx)
                else:
                    ref[a] = v
                    if sorted(log) != sorted((("w", s[0]), a, v) for s in cov if s[5]):
                        fail("a write of %d to $%04X calls the hooks %r" % (v, a, log), **ctx)
                if any(y[0] not in [("w", s[0]) for s in cov if s[5]] for y in log):
                    fail("a write to $%04X calls the hooks %r" % (a, log), **ctx)
            elif t == 1:
                k, x = access(mm.memory, a, None)
                if k == "raise" or x != ref.get(a, 0):
                    fail("$%04X reads %r instead of %r" % (a, x, ref.get(a, 0)), **ctx)
                if sorted(log) != sorted((("r", s[0]), a) for s in cov if s[4]):
                    fail("a read of $%04X calls the hooks %r" % (a, log), **ctx)
            else:
                old = R.choice(cand) if R.random() < 0.7 else R.randrange(65536)

                class Cpu(object):
                    pc = a
                cpu = Cpu()
                want = [("e", s[0]) for s in spec if a in s[6]]
                if R.random() < 0.4 and all(not s[3] and not s[5] for s in spec if s[1] <= old <= s[2]):
                    mm.memory[old] = 0x60
                    ref[old] = 0x60
                log[:] = []
                try:
                    k, x = "ok", mm.MaybeInterceptExecution(cpu, old)
                except Exception as y:
                    k, x = "raise", y
                names = [y[0] for y in log if y[0][0] == "e"]
                legal = bool(region(a) == region(old) or want or ref.get(old, 0) == 0x60)
                if legal != (k == "ok"):
                    fail("execution from $%04X (opcode %02X) to $%04X: %s" % (
                        old, ref.get(old, 0), a, "raises %r" % x if k == "raise" else "accepted"), **ctx)
                if k == "raise" and not isinstance(x, memory.UndefinedEntryPointException):
                    fail("execution from $%04X to $%04X raises %r" % (old, a, x), **ctx)
                if sorted(names) != sorted(want):
                    fail("execution from $%04X to $%04X runs the handlers %r instead of %r" % (old, a, names, want),
                         **ctx)
                if any(len(y) != 2 or y[1] is not cpu for y in log if y[0][0] == "e"):
                    fail("a handler is not given the processor", **ctx)
            for b in cand[:6] + [a]:
                if mm.memory._subject[b] != ref.get(b, 0):
                    fail("$%04X holds %r instead of %r after an access to $%04X" % (
                        b, mm.memory._subject[b], ref.get(b, 0), a), **ctx)


def regs(p):
    return p <= 0x2f or 0x400 <= p <= 0x7ff


def c24(models):
    todo = [m.get("vars", {}) for m in models] + [None] * 400
    for m in todo:
        a2 = apple2.AppleII(uthernet.Uthernet(b""))
        u = a2.uthernet
        a2.memory_manager.enable()
        if not 0 <= u.ptr <= 0x7fff:
            fail("the pointer starts at %r" % u.ptr)
        ref = {}
        ptr = u.ptr
        hist = []
        if m:
            ptr = u.ptr = int(m.get("ptr", 0)) & 0x7fff
            hist.append("pointer set to $%04X" % ptr)
        seq = []
        if m and "hi" in m:
            seq = [(0xc095, int(m["hi"])), (0xc096, int(m.get("lo", 0)))]
            if m.get("low_first"):
                seq.reverse()
        if m and "value" in m:
            seq = [(R.choice((0xc094, 0xc097)), int(m["value"]))]
        for step in range(60):
            if seq:
                a, v = seq.pop(0)
            else:
                a = R.choice((0xc094, 0xc095, 0xc095, 0xc096, 0xc096, 0xc097, 0xc097, 0xc097))
                v = R.choice((0, 1, 2, 3, 0x60, 0x7f, 0x80, 0xff, 0x5f, 0x83, 0x4, R.randrange(256)))
                if a in (0xc094, 0xc097) and R.random() < 0.5:
                    v = None
            hist.append(("%04X" % a, v))
            ctx = dict(history=hist[-10:])
            k, x = access(a2.memory, a, v)
            ok = (machine.TrapException, NotImplementedError, AssertionError)
            if a == 0xc095:
                if k == "raise":
                    fail("writing $C095 raises %r" % x, **ctx)
                ptr = (v * 256 + ptr % 256) % 0x8000
            elif a == 0xc096:
                if k == "raise":
                    fail("writing $C096 raises %r" % x, **ctx)
                ptr = ptr - ptr % 256 + v
            elif a == 0xc097:
                if k == "raise":
                    if not regs(ptr) or not isinstance(x, ok):
                        fail("data port access at pointer $%04X raises %r" % (ptr, x), **ctx)
                    continue
                if v is None:
                    if x != ref.get(ptr, 0):
                        fail("the data port reads %r at pointer $%04X instead of %r" % (x, ptr, ref.get(ptr, 0)), **ctx)
                else:
                    if u.memory._subject[ptr] != v:
                        fail("the data port does not write %r at pointer $%04X" % (v, ptr), **ctx)
                    ref[ptr] = v
                    if ptr == 0x401:
                        ref[0x403] = u.memory._subject[0x403]
                ptr = (ptr + 1) % 0x8000
            else:
                if v is None:
                    if k == "raise" or x != ref.get(0, 0):
                        fail("the mode register reads %r instead of %r" % (x, ref.get(0, 0)), **ctx)
                elif k == "raise":
                    if v & 0x7c == 0:
                        fail("writing mode %02X raises %r" % (v, x), **ctx)
                    continue
                else:
                    ref[0] = v
            if u.ptr != ptr:
                fail("the pointer is %r instead of $%04X" % (u.ptr, ptr), **ctx)
            got = {i: b for i, b in enumerate(u.memory._subject) if b} if step % 20 == 19 else None
            if got is not None and got != {i: b for i, b in ref.items() if b}:
                fail("the adapter's memory differs", **ctx)


def main():
    prop = sys.argv[1]
    models = lib.model_inputs()
    if prop == "C22":
        c22()
    elif prop == "C23":
        c23()
    else:
        c24(models)


main()
