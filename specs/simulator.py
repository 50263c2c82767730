"""The simulator under contract: memory manager (C23), soft switches and I/O dispatch (C22), network adapter (C24).

py65's ObservableMemory is executed from its installed source, not assumed."""
from specs.common import *
from pyvc import tracked as T, instrument as I
from pyvc.instrument import RList, RDict
import types

PY65 = "/opt/venv/lib/pypy3.9/site-packages/py65/memory.py"


def s_chr(v):
    if isinstance(V.as_int(v), V.Sym):
        return V.FmtStr("%c", (v,))
    return chr(v)


def program():
    prog = I.Program([REPO + "/simulator"], dict(
        collections=T.collections_stub(), enum=env.enum_stub(), functools=env.functools_stub()),
        {"builtins": {"range": T.t_range, "chr": s_chr}})
    m = types.ModuleType("py65_memory")
    m.__dict__.update(prog.module_ns("py65_memory", PY65))
    tree = I.transform(open(PY65).read(), "py65_memory", PY65)
    prog.filenames.add(PY65)
    exec(compile(tree, PY65, "exec"), m.__dict__)
    prog.modules["py65_memory"] = m
    getter = m.ObservableMemory.__getattr__

    def delegate(self, a):
        # probes of the verifier itself must not reach the underlying storage
        if a.startswith(("__", "sym", "_subject")):
            raise AttributeError(a)
        return getter(self, a)
    m.ObservableMemory.__getattr__ = delegate
    init = m.ObservableMemory.__init__

    def fresh(self, subject=None, addrWidth=16):
        init(self, subject if subject is not None else T.TArray("mem"), addrWidth)
    m.ObservableMemory.__init__ = fresh

    class MPU(object):
        def __init__(self, memory=None, pc=None):
            self.memory, self.pc, self.processorCycles = memory, pc, 0

    class Disassembler(object):
        def __init__(self, cpu):
            pass
    mpu = env.mod("py65.devices.mpu65c02", MPU=MPU)
    dis = env.mod("py65.disassembler", Disassembler=Disassembler)
    dev = env.mod("py65.devices", mpu65c02=mpu)
    prog.stubs.update({"py65": env.mod("py65", memory=m, disassembler=dis, devices=dev), "py65.memory": m,
                       "py65.devices": dev, "py65.disassembler": dis, "py65.devices.mpu65c02": mpu})
    return prog


def trust(chk):
    chk.trust("pyvc: the symbolic interpreter of the instrumented Python source; maps and memories over addresses "
              "followed at arbitrary tracked addresses (pyvc/tracked.py)")
    chk.trust("z3 4.15 (cvc5 for obligations z3 leaves open)")
    chk.assume("Python integers are mathematical; memory bytes and bus values are 0..255")
    chk.assume("py65's CPU and disassembler are stand-ins (the memory manager reads only cpu.pc); py65.memory is "
               "executed from its source, its initial contents arbitrary")


# ------------------------------------------------------------------------------------------ C23
class G23(EN.Ghost):
    def __init__(self):
        self.cover = []         # regions that contain a tracked address, in order: (region, [contains?])
        self.log = []           # hook events
        self.done = False


class Hook(object):
    """A read or write hook: records the access and does not change the value."""

    def __init__(self, g, tag):
        self.g, self.tag = g, tag

    def __call__(self, *a):
        self.g.log.append((self.tag,) + a)
        return None

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "hook", self.tag))


class AnyEntries(object):
    """Entry points of a region: any number at other addresses, handlers for the tracked addresses."""

    def __init__(self, pts):
        self.pts = pts          # [(address, handler)]

    def __bool__(self):
        return True

    def items(self):
        return AnyItems(self.pts)

    def __iter__(self):
        raise Unsupported("iteration over entry point addresses")

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "entries", len(self.pts)))


class AnyItems(object):
    def __init__(self, pts):
        self.pts, self.pos = pts, 0

    def symiter(self):
        return AnyItems(self.pts)

    def advance(self, act):
        e = V.ENG
        e.symdec += 1
        if bool(e.fresh_bool("entry")):
            a = e.fresh_int("entry", 0, 0xffff, bv=True)
            e.assume(V.boolterm(V.land(*[V.neg(V.eq(a, t)) for t in e.tracked])))
            act.value = (a, "handler of another address")
            return True
        if self.pos < len(self.pts):
            act.value = self.pts[self.pos]
            self.pos += 1
            return True
        return False

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "items", self.pos, len(self.pts)))


class AnyMap(object):
    """Memory map: any number of regions without the tracked addresses, up to `depth` that contain one of them."""

    def __init__(self, prog, g, depth, hooks, entries):
        self.mem, self.g, self.depth, self.hooks, self.entries = prog.load("memory"), g, depth, hooks, entries
        self.alike = bool(V.ENG.fresh_bool("alike"))

    def symiter(self):
        return self

    def __iter__(self):
        raise Unsupported("native iteration over an arbitrary memory map")

    def advance(self, act):
        e, g = V.ENG, self.g
        e.symdec += 1
        if g.done or not bool(e.fresh_bool("region")):
            g.done = True
            return False
        n = len(g.cover)
        lo, hi = e.fresh_int("start", 0, 0xffff, bv=True), e.fresh_int("end", 0, 0xffff, bv=True)
        if n < self.depth and bool(e.fresh_bool("covering")):
            t = e.tracked
            ins = [bool(V.land(lo <= a, a <= hi)) for a in t]
            pts = []
            if self.entries:
                for k in range(e.choose(3, "nh")):
                    pts.append((t[0], Hook(g, ("handler", n, k))))
            if not any(ins) and not pts:
                raise EN.Infeasible()
            kw = dict(writable=not (bool(e.fresh_bool("ro")) if self.hooks else self.alike))
            if self.hooks:
                # hooks of the other kind: on all of these regions or on none
                if bool(e.fresh_bool("rd")) if self.hooks == "read" else self.alike:
                    kw["read_interceptor"] = Hook(g, ("read", n))
                if bool(e.fresh_bool("wr")) if self.hooks == "write" else self.alike:
                    kw["write_interceptor"] = Hook(g, ("write", n))
            if pts or self.alike:
                kw["entrypoints"] = AnyEntries(pts)
            r = self.mem.MemoryRegion("region %d" % n, lo, hi, **kw)
            g.cover = g.cover + [(r, ins, pts, kw)]
            act.value = r
            return True
        e.assume(V.boolterm(V.land(*[V.lor(a < lo, a > hi) for a in e.tracked])))
        kw = dict(writable=not bool(e.fresh_bool("ro")))
        if bool(e.fresh_bool("rd")) if self.hooks else self.alike:
            kw["read_interceptor"] = Hook(g, ("read", "other"))
        if bool(e.fresh_bool("wr")) if self.hooks else self.alike:
            kw["write_interceptor"] = Hook(g, ("write", "other"))
        if bool(e.fresh_bool("ent")):
            kw["entrypoints"] = AnyEntries([])
        act.value = self.mem.MemoryRegion("another region", lo, hi, **kw)
        return True

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "anymap"))


def h_access(prog, kind, depth):
    mem = prog.load("memory")

    def f():
        e = V.ENG
        a = e.fresh_int("A", 0, 0xffff, bv=True)
        e.tracked = [a]
        g = G23()
        e.ghost_roots["g"] = g
        mm = noexc(e, "memory manager", lambda: mem.MemoryManager(AnyMap(prog, g, depth, kind, False)))
        noexc(e, "registering the regions", mm.enable)
        m = mm.memory
        before = m._subject.slots[0]
        g.log = RList()
        cover = [(i, kw) for i, (r, ins, pts, kw) in enumerate(g.cover) if ins[0]]
        if kind == "write":
            v = e.fresh_int("value", 0, 255)
            k, x = outcome(m.__setitem__, a, v)
            ro = [i for i, kw in cover if not kw["writable"]]
            if ro:
                ok = k == "raise" and isinstance(x, mem.WriteProtectedException)
                e.prove("a write to a read-only region raises an error", ok, repr(x))
                if ok:
                    e.prove("the error names the read-only region", x.name in ["region %d" % i for i in ro], str(x.name))
                    e.prove("the error names the address", V.eq(x.addr, a))
                e.prove("a rejected write changes nothing", V.eq(m._subject.slots[0], before))
            else:
                e.prove("a write outside read-only regions is not rejected", k == "ok", repr(x))
                if k == "ok":
                    e.prove("a write stores the value at its address", V.eq(m._subject.slots[0], v))
            want = [("write", i) for i, kw in cover if "write_interceptor" in kw]
            args = (a, v)
        else:
            k, x = outcome(m.__getitem__, a)
            e.prove("reading does not fail", k == "ok", repr(x))
            if k == "ok":
                e.prove("a read returns the byte at its address", V.eq(x, before))
            e.prove("a read changes nothing", V.eq(m._subject.slots[0], before))
            want, ro, args = [("read", i) for i, kw in cover if "read_interceptor" in kw], [], (a,)
        e.prove("no other address is written", m._subject.others == 0)
        got = [x[0] for x in g.log]
        e.prove("hooks fire only for the addresses of their region", all(x in want for x in got), "%s %s" % (got, want))
        if not ro:
            e.prove("hooks fire exactly once for an access in their region", sorted(got) == sorted(want),
                    "%s %s" % (got, want))
        e.prove("hooks are told the address and value", V.land(*[V.land(len(x) == 1 + len(args), *[
            V.eq(y, z) for y, z in zip(x[1:], args)]) for x in g.log]))
        e.cover("access")
    return f


def h_exec(prog, depth):
    mem = prog.load("memory")

    def f():
        e = V.ENG
        pc, old = e.fresh_int("pc", 0, 0xffff, bv=True), e.fresh_int("old_pc", 0, 0xffff, bv=True)
        e.tracked = [pc, old]
        g = G23()
        e.ghost_roots["g"] = g
        mm = noexc(e, "memory manager", lambda: mem.MemoryManager(AnyMap(prog, g, depth, False, True)))
        noexc(e, "registering the regions", mm.enable)
        op = mm.memory._subject.slots[1]
        g.log = RList()
        handlers, at = [], [None, None]
        for i, (r, ins, pts, kw) in enumerate(g.cover):
            handlers += [h for _, h in pts]
            for j in (0, 1):
                if ins[j]:
                    at[j] = i
        cpu = types.SimpleNamespace(pc=pc)
        k, x = outcome(mm.MaybeInterceptExecution, cpu, old)
        same = at[0] == at[1]
        if same or handlers:
            e.prove("execution within a region or at an entry point is accepted", k == "ok", repr(x))
        else:
            rts = V.eq(op, 0x60)
            bad = k == "raise" and isinstance(x, mem.UndefinedEntryPointException)
            e.prove("entering another region is rejected unless by a return instruction", V.ite(
                rts, k == "ok", bad), repr(x))
            if bad:
                e.prove("the error gives the addresses", V.land(V.eq(x.addr, pc), V.eq(x.prev_addr, old)))
                e.prove("the error names the region entered",
                        x.region.name == ("region %d" % at[0] if at[0] is not None else "default"))
        got = [y[0] for y in g.log]
        e.prove("every handler declared for the address runs, once", sorted(got) == sorted(h.tag for h in handlers),
                "%s %s" % (got, [h.tag for h in handlers]))
        e.prove("handlers are given the processor", all(len(y) == 2 and y[1] is cpu for y in g.log))
        e.prove("no memory is changed", mm.memory._subject.others == 0 and V.eq(mm.memory._subject.slots[1], op))
        e.cover("execution")
    return f


def tasks23(chk):
    def acc(kind):
        def f(c):
            prog = program()
            prog.load("memory")
            prog.engine(c, "%s: " % kind, max_paths=40000, jobs=4).run(h_access(prog, kind, 2 if c.tier == "quick" else 3))
        return f

    def ex(c):
        prog = program()
        prog.load("memory")
        prog.engine(c, "execute: ", max_paths=40000, jobs=4).run(h_exec(prog, 2))
    return [("write", acc("write")), ("read", acc("read")), ("execute", ex)]


# ------------------------------------------------------------------------------------------ C22
# the soft switches of the Apple //e that the simulator provides: clear, set, status address, switched by a write only?
SWITCHES = {"80Store": (0xc000, 0xc001, 0xc018, True), "RamRd": (0xc002, 0xc003, 0xc013, True),
            "RamWrt": (0xc004, 0xc005, 0xc014, True), "IntCxROM": (0xc006, 0xc007, 0xc015, True),
            "AltZP": (0xc008, 0xc009, 0xc016, True), "SlotC3ROM": (0xc00a, 0xc00b, 0xc017, True),
            "80Col": (0xc00c, 0xc00d, 0xc01f, True), "AltCharSet": (0xc00e, 0xc00f, 0xc01e, True),
            "Text": (0xc050, 0xc051, 0xc01a, False), "Mixed": (0xc052, 0xc053, 0xc01b, False),
            "Page2": (0xc054, 0xc055, 0xc01c, False), "Hires": (0xc056, 0xc057, 0xc01d, False)}
NO_EFFECT = ("80Store", "RamRd", "RamWrt", "IntCxROM", "AltZP", "SlotC3ROM")   # reported as not implemented
OTHER_IO = {0xc030: "rw", 0xc094: "rw", 0xc095: "w", 0xc096: "w", 0xc097: "rw"}


def reported(x):
    """What a trap says the access was."""
    m = x.msg
    if isinstance(m, EN.enum.Enum):
        m = repr(m)
    t = (m.fmt if isinstance(m, V.FmtStr) else str(m)).lower()
    return "write" if "wrote" in t or "writ" in t else "read" if "read" in t else t


def h_dispatch(prog):
    """Machine.io_interceptor for any table of addresses."""
    machine = prog.load("machine")
    M = machine.AccessMode

    def f():
        e = V.ENG
        a = e.fresh_int("A", 0, 0xffff, bv=True)
        e.tracked = [a]
        m = machine.Machine()
        calls = []
        ret = [None, e.fresh_int("result", 0, 255)][e.choose(2, "ret")]

        def callback(mode, value):
            calls.append((mode, value))
            return ret
        table = T.TMap()
        present = bool(e.fresh_bool("present"))
        mode = [M.READ, M.WRITE, M.RW][e.choose(3, "mode")]
        cb = callback if bool(e.fresh_bool("callback")) else None
        if present:
            table[a] = (mode, "SWITCH", cb)
        m.io_map = table
        write = bool(e.fresh_bool("write"))
        v = e.fresh_int("value", 0, 255) if write else None
        k, x = outcome(m.io_interceptor, a, v) if write else outcome(m.io_interceptor, a)
        acc = M.WRITE if write else M.READ
        if present and acc & mode:
            e.prove("a permitted access is carried out", k == "ok", repr(x))
            if k == "ok":
                if cb is None:
                    e.prove("without a callback nothing replaces the value", x is None and not calls)
                else:
                    e.prove("the callback is called once, with the kind of access and the value", len(calls) == 1 and
                            calls[0][0] == acc and (V.eq(calls[0][1], v) if write else calls[0][1] is None))
                    e.prove("the callback's result is the result of the access", V.eq(x, ret) if ret is not None
                            else x is None)
            return
        e.prove("any other access is trapped", k == "raise" and isinstance(x, machine.TrapException), repr(x))
        if k == "raise" and isinstance(x, machine.TrapException):
            e.prove("the trap names the address", V.eq(x.address, a))
            e.prove("the trap reports a %s" % ("write" if write else "read"),
                    reported(x) == ("write" if write else "read"), str(x.msg))
        e.prove("a trapped access has no effect", not calls)
        e.cover("dispatch")
    return f


def h_switch(prog):
    """Any switch at any three distinct addresses."""
    machine = prog.load("machine")
    M = machine.AccessMode

    def f():
        e = V.ENG
        c, s, r, a = [e.fresh_int(n, 0, 0xffff, bv=True) for n in ("clear", "set", "status", "A")]
        e.assume(V.boolterm(V.land(V.neg(V.eq(c, s)), V.neg(V.eq(c, r)), V.neg(V.eq(s, r)))))
        e.tracked = [c, s, r]
        m = machine.Machine()
        m.io_map = T.TMap()
        mode = [M.READ, M.WRITE, M.RW][e.choose(3, "mode")]
        calls = []
        cb = None
        if bool(e.fresh_bool("callback")):
            def cb(on):
                calls.append(on)
        sw = noexc(e, "switch", lambda: machine.SoftSwitch("X", clear_addr=c, set_addr=s, status_addr=r, mode=mode,
                                                           callback=cb))
        e.prove("a switch starts off", V.eq(sw.state, False))
        noexc(e, "register", lambda: sw.register(m.io_map))
        on = e.fresh_bool("on")
        e.setattr(sw, "state", on)
        e.assume(V.boolterm(V.lor(V.eq(a, c), V.eq(a, s), V.eq(a, r))))
        write = bool(e.fresh_bool("write"))
        v = e.fresh_int("value", 0, 255)
        k, x = outcome(m.io_interceptor, a, v) if write else outcome(m.io_interceptor, a)
        acc = M.WRITE if write else M.READ
        if bool(V.eq(a, r)):
            if write:
                e.prove("writing the status address is trapped", k == "raise" and isinstance(
                    x, machine.TrapException))
            else:
                e.prove("reading the status address succeeds", k == "ok" and x is not None, repr(x))
                if k == "ok" and x is not None:
                    e.prove("the status has its top bit set exactly when the switch is on",
                            V.land(V.eq(V.as_int(x) >= 128, on), V.as_int(x) <= 255))
            e.prove("reading the status does not change the switch", V.land(V.eq(sw.state, on), not calls))
            return
        to = V.eq(a, s)
        if acc & mode:
            e.prove("a permitted access succeeds", k == "ok", repr(x))
            e.prove("the set address turns the switch on, the clear address off", V.eq(sw.state, to))
            e.prove("the callback is told the new state", len(calls) == (1 if cb else 0) and
                    all(V.eq(y, to) for y in calls))
        else:
            e.prove("an access in another mode is trapped", k == "raise" and isinstance(x, machine.TrapException))
            if k == "raise" and isinstance(x, machine.TrapException):
                e.prove("the trap reports the kind of access", reported(x) == ("write" if write else "read"))
            e.prove("a trapped access does not change the switch", V.land(V.eq(sw.state, on), not calls))
        e.cover("switch")
    return f


def apple2(prog, e, adapter=(0,)):
    # registering an untracked address does not concern the tracked ones: obligation "loop ... closes" of C23
    e.gaps = False
    bus, e.tracked = e.tracked, list(adapter)
    uth = prog.load("uthernet").Uthernet(b"")
    e.tracked = bus
    a2 = prog.load("apple2").AppleII(uth)
    a2.memory_manager.enable()
    return a2, uth


def h_apple(prog):
    """Accesses of the I/O page on the bus of the simulated Apple II, with any switch settings."""
    machine = prog.load("machine")
    names = sorted(SWITCHES)

    def f():
        e = V.ENG
        a = 0xc000 + e.choose(256, "A")
        e.tracked = [a]
        a2, uth = noexc(e, "construction", lambda: apple2(prog, e))
        e.prove("the simulator has the switches of the Apple //e", sorted(a2.soft_switches) == names)
        on = {}
        for n in names:
            e.prove("switches start off", V.eq(a2.soft_switches[n].state, False))
            on[n] = e.fresh_bool("on_" + n)
            e.setattr(a2.soft_switches[n], "state", on[n])
        write = bool(e.fresh_bool("write"))
        v = e.fresh_int("value", 0, 255)
        # which register is it, by the table above
        kind, who = None, None
        for n in names:
            c, s, r, wonly = SWITCHES[n]
            for addr, w in ((c, "clear"), (s, "set"), (r, "status")):
                if kind is None and bool(V.eq(a, addr)):
                    kind, who = w, n
        if kind is None:
            for addr, md in OTHER_IO.items():
                if bool(V.eq(a, addr)):
                    kind, who = "io", md
                    if addr in (0xc094, 0xc097) and not (md == "w"):
                        return          # the network adapter's registers: C24
        k, x = outcome(a2.memory.__setitem__, a, v) if write else outcome(a2.memory.__getitem__, a)
        want = dict(on)
        trap = k == "raise" and isinstance(x, machine.TrapException)
        if kind in ("clear", "set"):
            ok = write or not SWITCHES[who][3]
            if ok:
                want[who] = kind == "set"
                e.prove("a permitted access succeeds, or reports that the switch has no effect",
                        k == "ok" or (who in NO_EFFECT and isinstance(x, NotImplementedError)), repr(x))
            else:
                e.prove("an access in another mode is trapped as a read", trap and reported(x) == "read", repr(x))
        elif kind == "status":
            if write:
                e.prove("writing a status address is trapped as a write", trap and reported(x) == "write", repr(x))
            else:
                e.prove("reading a status address succeeds", k == "ok", repr(x))
                if k == "ok":
                    e.prove("the status has its top bit set exactly when the switch is on",
                            V.land(V.eq(V.as_int(x) >= 128, on[who]), V.as_int(x) <= 255))
        elif kind == "io":
            if write or who == "rw":
                e.prove("an access to an implemented address succeeds", k == "ok", repr(x))
            else:
                e.prove("an access in another mode is trapped as a read", trap and reported(x) == "read", repr(x))
        else:
            e.prove("an access to an address that is not implemented is trapped", trap, repr(x))
            if trap:
                e.prove("the trap reports a %s" % ("write" if write else "read"),
                        reported(x) == ("write" if write else "read"), str(x.msg))
        if trap:
            e.prove("the trap names the address", V.eq(x.address, a))
        e.prove("no other switch is affected", V.land(*[V.eq(a2.soft_switches[n].state, want[n]) for n in names]))
        e.cover("access")
    return f


def run_task(name, h, loads, **kw):
    def f(c):
        prog = program()
        for m in loads:
            prog.load(m)
        prog.engine(c, name + ": ", max_paths=40000, **kw).run(h(prog))
    return name, f


def tasks22(chk):
    al = ("machine", "memory", "uthernet", "apple2")
    return [run_task("dispatch", h_dispatch, ("machine",)), run_task("switch", h_switch, ("machine",)),
            run_task("bus", h_apple, al, jobs=6)]


# ------------------------------------------------------------------------------------------ C24
REGISTERS = ((0x0000, 0x002f), (0x0400, 0x07ff))


def h_adapter(prog, what):
    machine = prog.load("machine")

    def f():
        e = V.ENG
        ptr = e.fresh_int("ptr", 0, 0x7fff, bv=True)
        regs = {"wmode": 0xc094, "wadr": 0xc095, "wdata": 0xc097}
        other = e.fresh_int("other", 0, 0x7fff, bv=True)
        e.tracked = [0xc094, 0xc095, 0xc096, 0xc097]
        a2, uth = noexc(e, "construction", lambda: apple2(prog, e, [0x0000, 0x0403, ptr, other]))
        e.prove("the address pointer starts within the address space", V.land(uth.ptr >= 0, uth.ptr <= 0x7fff))
        e.setattr(uth, "ptr", ptr)
        mem = uth.memory._subject
        before = list(mem.slots)

        def byte(i):
            return mem.slots[i]
        if what == "wadr":
            hi, lo = e.fresh_int("hi", 0, 255), e.fresh_int("lo", 0, 255)
            order = [(0xc095, hi), (0xc096, lo)]
            if bool(e.fresh_bool("low_first")):
                order.reverse()
            for addr, v in order:
                noexc(e, "writing an address register", lambda: a2.memory.__setitem__(addr, v))
                e.prove("the pointer stays within the address space", V.land(uth.ptr >= 0, uth.ptr <= 0x7fff))
            e.prove("the pointer is the 16-bit value written, modulo 32 KB", V.eq(uth.ptr, (hi * 256 + lo) % 0x8000))
            e.prove("setting the pointer does not access the adapter's memory", V.land(
                mem.others == 0, *[V.eq(byte(i), before[i]) for i in range(len(before))]))
            # one register alone keeps the other half
            e.setattr(uth, "ptr", ptr)
            noexc(e, "writing an address register", lambda: a2.memory.__setitem__(0xc095, hi))
            e.prove("the high register keeps the low byte", V.eq(uth.ptr, (hi * 256 + ptr % 256) % 0x8000))
            e.setattr(uth, "ptr", ptr)
            noexc(e, "writing an address register", lambda: a2.memory.__setitem__(0xc096, lo))
            e.prove("the low register keeps the high byte", V.eq(uth.ptr, ptr - ptr % 256 + lo))
            e.cover("pointer")
            return
        inreg = V.lor(*[V.land(ptr >= a, ptr <= b) for a, b in REGISTERS])
        reported_ = (machine.TrapException, NotImplementedError, AssertionError)
        if what == "wdata read":
            k, x = outcome(a2.memory.__getitem__, 0xc097)
            if k == "raise":
                e.prove("only unimplemented registers are reported", V.land(inreg, isinstance(x, reported_)), repr(x))
                return
            e.prove("the data port reads the byte at the pointer", V.eq(x, before[2]))
            e.prove("reading advances the pointer by one", V.eq(uth.ptr, (ptr + 1) % 0x8000))
            e.prove("reading changes nothing", V.land(mem.others == 0, *[
                V.eq(byte(i), before[i]) for i in range(len(before))]))
        elif what == "wdata write":
            v = e.fresh_int("value", 0, 255)
            k, x = outcome(a2.memory.__setitem__, 0xc097, v)
            if k == "raise":
                e.prove("only unimplemented registers are reported", V.land(inreg, isinstance(x, reported_)), repr(x))
                return
            e.prove("the data port writes the byte at the pointer", V.eq(byte(2), v))
            e.prove("writing advances the pointer by one", V.eq(uth.ptr, (ptr + 1) % 0x8000))
            cmd = V.eq(ptr, 0x401)
            e.prove("only the byte at the pointer is written (and the socket status by a socket command)", V.land(
                mem.others == 0, V.implies(V.land(V.neg(V.eq(other, ptr)), V.neg(V.land(cmd, V.eq(other, 0x403)))),
                                           V.eq(byte(3), before[3]))))
        else:
            v = e.fresh_int("value", 0, 255)
            k, x = outcome(a2.memory.__getitem__, 0xc094)
            e.prove("reading the mode succeeds", k == "ok", repr(x))
            if k == "ok":
                e.prove("the mode register reads the adapter's mode", V.eq(x, before[0]))
            legal = V.eq(v & 0x7c, 0)
            k, x = outcome(a2.memory.__setitem__, 0xc094, v)
            if k == "raise":
                e.prove("only modes the simulator does not implement are reported", V.neg(legal), repr(x))
                return
            e.prove("the mode register stores the adapter's mode", V.eq(byte(0), v))
            e.prove("mode accesses do not move the pointer", V.eq(uth.ptr, ptr))
            k, x = outcome(a2.memory.__getitem__, 0xc094)
            e.prove("the mode register reads what was written", k == "ok" and V.eq(x, v), repr(x))
        e.cover(what)
    return f


def tasks24(chk):
    al = ("machine", "memory", "uthernet", "apple2")
    return [run_task(w, lambda prog, w=w: h_adapter(prog, w), al, jobs=4)
            for w in ("wadr", "wdata read", "wdata write", "wmode")]


def contracts(chk, prop):
    common = ("memory.MemoryManager.*", "memory.MemoryRegion.__init__", "py65.memory.ObservableMemory.*",
              "machine.Machine.io_interceptor", "apple2.AppleII.__init__")
    own = dict(C22=("machine.SoftSwitch.__init__", "machine.SoftSwitch.set", "machine.SoftSwitch.clear",
                    "machine.SoftSwitch.get", "machine.SoftSwitch.register", "machine.SoftSwitch.unimplemented",
                    "machine.Log", "apple2._tick"),
               C24=("uthernet.Uthernet.__init__", "uthernet.Uthernet.read_data", "uthernet.Uthernet.write_data",
                    "uthernet.Uthernet.read_mode", "uthernet.Uthernet.write_mode", "uthernet._mode",
                    "uthernet._socket_mode", "uthernet._socket_command", "uthernet.Uthernet.reset",
                    "apple2._uther_wmode", "apple2._uther_wadrh", "apple2._uther_wadrl", "apple2._uther_wdata"))
    for f in common + own[prop]:
        chk.under_contract(f)
