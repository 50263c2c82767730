"""The ][-Vision player as a machine under contract: bus model, path exploration, device model."""
import z3
from .cpu import Machine, State, Unsupported, isc, simp, bv, same

KBD, KBDSTRB, TICK = 0xc000, 0xc010, 0xc030
WMODE, WADRH, WADRL, WDATA = 0xc094, 0xc095, 0xc096, 0xc097
SWITCH_NAMES = {0xc001: "80STORE on", 0xc000: "80STORE off", 0xc00d: "80COL on", 0xc00c: "80COL off",
                0xc050: "TEXT off", 0xc051: "TEXT on", 0xc052: "MIXED off", 0xc053: "MIXED on",
                0xc054: "PAGE2 off", 0xc055: "PAGE2 on", 0xc056: "HIRES off", 0xc057: "HIRES on",
                0xc05e: "DHIRES on", 0xc05f: "DHIRES off"}
VOLATILE = {0x0401, 0x0402, 0x0403, 0x0426, 0x0427}


class Device:
    """W5100 behind the indirect port.  ptr None: pointer somewhere in the stream (stream mode)."""

    def __init__(self, ptr=None):
        self.ptr = ptr              # int, or None in stream mode
        self.ptr_lo_unknown = False
        self.mode = None
        self.regs = {}              # last written values
        self.nstream = 0

    def fork(self):
        d = Device.__new__(Device)
        d.__dict__.update(self.__dict__)
        d.regs = dict(self.regs)
        return d


class Restart(Exception):
    pass


class PlayerMachine(Machine):
    def __init__(self, image, **kw):
        super().__init__(image, **kw)
        self.max_steps = 20000
        self.max_paths = 4000
        self.cut_first = False      # havoc known loop heads on arrival (one exploration per loop, not two)
        self.heads = {}
        self.no_fetch = []          # (lo, hi) ranges in which no instruction may be fetched

    # ---------------------------------------------------------------- device
    def stream_byte(self, st, where):
        k = st.dev.nstream
        st.dev.nstream += 1
        v = z3.BitVec("s%d" % k, 8)
        return v

    def advance(self, st):
        d = st.dev
        if d.ptr is None:
            return
        if not isc(d.ptr):
            raise Unsupported("symbolic device pointer")
        if d.ptr == 0x7fff:
            d.ptr = 0x6000          # RX buffer wraps (8 KB to socket 0)
        else:
            d.ptr = (d.ptr + 1) & 0xffff

    def dev_read(self, st):
        d = st.dev
        if d.ptr is None:
            v = self.stream_byte(st, None)
            return v, None
        if d.ptr_lo_unknown:
            st.extra["bad"] = "data port read at unknown register"
            return self.fresh("junk"), None
        p = d.ptr
        if 0x6000 <= p <= 0x7fff:
            v = self.stream_byte(st, p)
        elif p in VOLATILE:
            v = self.fresh("reg_%04x" % p)
        elif p in d.regs:
            v = d.regs[p]
        else:
            v = z3.BitVec("dev_%04x" % p, 8)
        self.advance(st)
        return v, p

    def dev_write(self, st, val):
        d = st.dev
        if d.ptr is None:
            st.extra["bad"] = "data port written in the receive buffer"
            return None
        if d.ptr_lo_unknown:
            st.extra["bad"] = "data port written at unknown register"
            return None
        p = d.ptr
        if p not in VOLATILE:
            d.regs[p] = val
        self.advance(st)
        return p

    # ---------------------------------------------------------------- bus
    def ev(self, st, kind, addr, val, extra=None):
        st.events.append((st.cyc - 1, kind, addr, val, extra, st.trace[-1] if st.trace else None))

    def io_read(self, st, addr):
        if addr == WDATA:
            v, p = self.dev_read(st)
            self.ev(st, "r", addr, v, p)
            return v
        if addr in (WADRH, WADRL):
            d = st.dev
            if d.ptr is None or (addr == WADRL and d.ptr_lo_unknown):
                v = self.fresh("ptr")
            else:
                v = d.ptr >> 8 if addr == WADRH else d.ptr & 0xff
            self.ev(st, "r", addr, v)
            return v
        v = self.fresh("io_%04x" % addr)
        self.ev(st, "r", addr, v)
        return v

    def io_write(self, st, addr, val):
        d = st.dev
        if addr == WDATA:
            p = self.dev_write(st, val)
            self.ev(st, "w", addr, val, p)
            return
        if addr in (WADRH, WADRL):
            if d.ptr is None:
                st.extra["bad"] = "network pointer changed"
            elif not isc(val):
                raise Unsupported("symbolic network pointer")
            elif addr == WADRH:
                d.ptr = (val << 8) | (d.ptr & 0xff)
            else:
                d.ptr = (d.ptr & 0xff00) | val
                d.ptr_lo_unknown = False
        if addr == WMODE:
            d.mode = val
            if isc(val) and val & 0x80:
                d.regs = {}
        self.ev(st, "w", addr, val)
        self.switch(st, addr)

    def switch(self, st, addr):
        if addr in SWITCH_NAMES and addr not in (0xc000,):
            n, v = SWITCH_NAMES[addr].rsplit(" ", 1)
            sw = dict(st.extra.get("sw", {}))
            sw[n] = v
            st.extra["sw"] = sw

    def io_write_sym(self, st, addr, lo, hi, val):
        if lo == 0xc000 and hi == 0xc0ff:
            self.ev(st, "w", addr, val)
            st.extra.setdefault("symio", [])
            st.extra["symio"] = st.extra["symio"] + [addr]
            return
        raise Unsupported("symbolic I/O write %04x..%04x" % (lo, hi))

    def on_jsr(self, st, target):
        if target == 0xf3f2 or target == 0xf3e2:        # HGR0 / HGR: clear the 8 KB screen at page $E6
            if target == 0xf3e2:
                for a in (0xc054, 0xc053, 0xc057, 0xc050):
                    self.ev(st, "w", a, None)
                    self.switch(st, a)
                page = 0x20
            else:
                page = self.mread(st, 0xe6)
            sw = st.extra.get("sw", {})
            aux = sw.get("80STORE") == "on" and sw.get("PAGE2") == "on" and sw.get("HIRES") == "on"
            self.ev(st, "clear", page, "aux" if aux else "main", dict(sw))
            st.extra["clears"] = st.extra.get("clears", []) + [(page, "aux" if aux else "main")]
            if not aux:
                st.extra["cleared_main"] = True
            for r in "axy":
                setattr(st, r, self.fresh("hgr_" + r))
            st.n, st.z, st.c, st.v = [z3.Bool("hgr_f%d_%d" % (k, len(st.trace))) for k in range(4)]
            st.cyc += 100000
            return True
        if target == 0xfded:                            # COUT preserves A, X, Y
            self.ev(st, "cout", target, st.a)
            return True
        if target == 0xbf00:
            call = self.mread(st, st.pc)
            self.ev(st, "mli", call, None)
            st.status = "prodos-%s" % (("%02x" % call) if isc(call) else "?")
            return True
        if target >= 0xd000:
            raise Unsupported("call to ROM routine %04x" % target)
        return False

    def code_ok(self, st, pc):
        if st.extra.get("cleared_main") and 0x2000 <= pc <= 0x3fff:
            return False
        return not any(lo <= pc <= hi for lo, hi in self.no_fetch)

    # ---------------------------------------------------------------- exploration
    def run(self, st, stop_pcs=(), unroll=64):
        """All paths from st until dispatch through a symbolic target, a stop pc, or an end status.

        With cut_first, loop heads found on an earlier attempt are havoced on arrival (the usual
        invariant cut), so the exploration restarts whenever a new head is discovered."""
        while True:
            try:
                return self._run(st.fork(), stop_pcs, unroll)
            except Restart:
                continue

    def _run(self, st, stop_pcs, unroll):
        done, work = [], [st]
        steps = 0
        while work:
            s = work.pop()
            while True:
                if s.status:
                    done.append(s)
                    break
                if not isc(s.pc):
                    s.status = "dispatch"
                    done.append(s)
                    break
                if s.pc in stop_pcs and s.trace:
                    s.status = "stop"
                    done.append(s)
                    break
                self.loop_head(s, unroll)
                if s.status:
                    continue
                steps += 1
                if steps > self.max_steps or len(done) + len(work) > self.max_paths:
                    raise Unsupported("exploration limit")
                nxt = self.step(s)
                if not nxt:
                    break
                s = nxt[0]
                work.extend(nxt[1:])
        return done

    def snapshot(self, s):
        d = s.dev
        return dict(x=s.x, y=s.y, sp=s.sp, d=s.d, a=s.a, n=s.n, z=s.z, c=s.c, v=s.v,
                    nmem=len(s.writes), mem=dict(s.mem), nsymw=len(s.symw),
                    ptrhi=None if d.ptr is None else d.ptr >> 8, ptr=d.ptr, lo_unknown=d.ptr_lo_unknown,
                    regs=dict(d.regs), nstream=d.nstream, npc=len(s.pc_cond), havoc=False, hset=set(),
                    sw=dict(s.extra.get("sw", {})), nclears=len(s.extra.get("clears", [])), nev=len(s.events))

    def havoc(self, s, hset):
        if "a" in hset:
            s.a = self.fresh("loop_a")
        if "f" in hset:
            s.n, s.z, s.c, s.v = [z3.Bool("loop_f%d!%d!%d" % (k, s.pc, len(s.trace))) for k in range(4)]
        if "p" in hset and s.dev.ptr is not None:
            s.dev.ptr_lo_unknown = True
        s.events.append((s.cyc, "loop", s.pc, None, None, s.pc))
        cur = self.snapshot(s)
        cur["havoc"] = True
        cur["hset"] = set(hset)
        return cur

    def loop_head(self, s, unroll):
        """Cut data-dependent loops: on a revisit with an equal non-volatile state, havoc A, flags and
        the low pointer byte once (covers every iteration), then close the path."""
        seen = s.extra.setdefault("seen", {})
        prev = seen.get(s.pc)
        if prev is None and s.pc in self.heads:
            s.extra["seen"] = dict(seen)
            s.extra["seen"][s.pc] = self.havoc(s, self.heads[s.pc])
            return
        cur = self.snapshot(s)
        if prev is not None and len(s.pc_cond) > prev["npc"]:
            def eq(k):
                a, b = prev[k], cur[k]
                if isinstance(a, dict):
                    return a.keys() == b.keys() and all(same(a[q], b[q]) for q in a)
                if a is None or b is None:
                    return a is b
                return same(a, b)
            core = all(eq(k) for k in ("x", "y", "sp", "d", "mem", "nsymw", "ptrhi", "regs", "nstream", "sw",
                                       "nclears"))
            if core:
                hset = set(prev["hset"])
                diff = set()
                if not eq("a"):
                    diff.add("a")
                if not all(eq(k) for k in "nzcv"):
                    diff.add("f")
                if not (eq("ptr") and eq("lo_unknown")):
                    diff.add("p")
                if prev["havoc"] and diff <= hset:
                    s.status = "closed"
                    return
                hset |= diff
                if self.cut_first:
                    self.heads[s.pc] = self.heads.get(s.pc, set()) | hset
                    raise Restart()
                s.extra["seen"] = {s.pc: self.havoc(s, hset)}
                return
            cnt = prev.get("count", 0) + 1
            if cnt > unroll:
                raise Unsupported("loop at %04x not cut after %d iterations" % (s.pc, cnt))
            # a fresh outer iteration: inner loop heads seen in earlier iterations are forgotten
            ns = {k: v for k, v in seen.items() if v.get("count")}
            if s.pc in self.heads:
                cur = self.havoc(s, self.heads[s.pc])
            cur["count"] = cnt
            ns[s.pc] = cur
            s.extra["seen"] = ns
            return
        if prev is None or not prev["havoc"]:
            s.extra["seen"] = dict(seen)
            s.extra["seen"][s.pc] = cur


def fresh_state(player, m, pc, havoc_cells=(), ptr=None):
    st = State(player.image)
    st.pc = pc
    st.a, st.x, st.y = z3.BitVec("A0", 8), z3.BitVec("X0", 8), z3.BitVec("Y0", 8)
    st.n, st.z, st.c, st.v = [z3.Bool("f0_" + k) for k in "nzcv"]
    st.dev = Device(ptr)
    for a in havoc_cells:
        st.mem[a] = z3.BitVec("cell_%04x" % a, 8)
    return st
