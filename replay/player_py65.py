"""Runs the assembled player on py65 (concretely) and checks the player properties on sampled inputs.

usage: player_py65.py C17|C18|C19|C20     prints "FAIL {json}" for the first failing input."""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from m6502 import build                                            # noqa: E402
from py65.devices.mpu6502 import MPU                               # noqa: E402

RNG = random.Random(int(os.environ.get("VERIF_SEED", "1")))
CORNER = [0, 1, 0x7f, 0x80, 0xff, 0x20, 0x40, 0x78]


def fail(**kw):
    print("FAIL " + json.dumps(kw, default=str))
    sys.exit(0)


class Stop(Exception):
    pass


class Bus(object):
    """Memory + I/O as seen by py65; records accesses of page $C0xx and memory writes."""

    def __init__(self, image):
        self.mem = [0] * 0x10000
        for a, b in image.items():
            self.mem[a] = b
        self.ptr = 0x6000
        self.rx = {}                # rx buffer contents by address
        self.regs = {}
        self.ev = []
        self.writes = []
        self.stream_reads = []
        self.kbd = lambda: 0
        self.rsr = lambda: 0x10
        self.status = lambda: 0x17
        self.sw = {}
        self.cleared = []
        self.cpu = None

    def __len__(self):
        return 0x10000

    def adv(self):
        self.ptr = 0x6000 if self.ptr == 0x7fff else (self.ptr + 1) & 0xffff

    def __getitem__(self, a):
        if isinstance(a, slice):
            return self.mem[a]
        if a & 0xff00 != 0xc000:
            return self.mem[a]
        v = 0
        if a == 0xc097:
            p = self.ptr
            if 0x6000 <= p <= 0x7fff:
                self.stream_reads.append(p)
                v = self.rx[p]
            elif p == 0x426:
                v = self.rsr()
            elif p == 0x427:
                v = RNG.randrange(256)
            elif p == 0x403:
                v = self.status()
            else:
                v = self.regs.get(p, 0)
            self.ev.append(("r", a, v, p))
            self.adv()
            return v
        if a == 0xc095:
            v = self.ptr >> 8
        elif a == 0xc096:
            v = self.ptr & 0xff
        elif a == 0xc000:
            v = self.kbd()
        self.ev.append(("r", a, v, None))
        return v

    def __setitem__(self, a, v):
        if a & 0xff00 != 0xc000:
            self.mem[a] = v
            self.writes.append((a, v))
            return
        self.ev.append(("w", a, v, self.ptr if a == 0xc097 else None))
        if a == 0xc095:
            self.ptr = (v << 8) | (self.ptr & 0xff)
        elif a == 0xc096:
            self.ptr = (self.ptr & 0xff00) | v
        elif a == 0xc094 and v & 0x80:
            self.regs = {}
        elif a == 0xc097:
            self.regs[self.ptr] = v
            self.adv()
        else:
            names = {0x01: ("80STORE", 1), 0x00: ("80STORE", 0), 0x0d: ("80COL", 1), 0x0c: ("80COL", 0),
                     0x50: ("TEXT", 0), 0x51: ("TEXT", 1), 0x52: ("MIXED", 0), 0x53: ("MIXED", 1),
                     0x54: ("PAGE2", 0), 0x55: ("PAGE2", 1), 0x56: ("HIRES", 0), 0x57: ("HIRES", 1),
                     0x5e: ("DHIRES", 1), 0x5f: ("DHIRES", 0)}
            if a & 0xff in names:
                n, x = names[a & 0xff]
                self.sw[n] = x


def machine(player, pc):
    bus = Bus(player.image)
    cpu = MPU(memory=bus, pc=pc)
    cpu.pc = pc
    cpu.sp = 0xff
    cpu.p &= ~cpu.DECIMAL
    bus.cpu = cpu
    return bus, cpu


def timed(cpu, bus, n):
    """Execute one instruction; tag new events with the cycle of the bus access."""
    k = len(bus.ev)
    cpu.step()
    for i in range(k, len(bus.ev)):
        e = bus.ev[i]
        bus.ev[i] = e + (cpu.processorCycles - 1,)


def run_to_dispatch(cpu, bus, limit, scribble=()):
    """Run until a JMP whose operand was written by the command itself; returns the jump's address."""
    for _ in range(limit):
        pc = cpu.pc
        op = bus.mem[pc]
        if op == 0x4c:
            w = set(a for a, _ in bus.writes)
            if pc + 1 in w and pc + 2 in w:
                timed(cpu, bus, 1)
                return pc
        if op == 0x00:
            raise Stop("BRK executed at $%04X" % pc)
        if op == 0x20:
            t = bus.mem[pc + 1] | bus.mem[pc + 2] << 8
            if t == 0xf3f2:
                page = bus.mem[0xe6]
                aux = bus.sw.get("80STORE") and bus.sw.get("PAGE2") and bus.sw.get("HIRES")
                bus.cleared.append((page, "aux" if aux else "main"))
                if not aux:
                    for a in range(0x2000, 0x4000):
                        bus.mem[a] = 0
                cpu.pc = pc + 3
                cpu.a, cpu.x, cpu.y = [RNG.randrange(256) for _ in range(3)]
                continue
            if t == 0xfded:
                cpu.pc = pc + 3
                continue
            raise Stop("calls $%04X" % t)
        timed(cpu, bus, 1)
    raise Stop("does not reach the next command within %d instructions" % limit)


def rnd_byte():
    return RNG.choice(CORNER) if RNG.random() < 0.4 else RNG.randrange(256)


def tick_ops(player):
    out = []
    for name, vals in sorted(player.symbols.items()):
        if name.startswith("op_tick_"):
            p = name.split("_")
            if len(p) == 5:
                if len(vals) != 1:
                    fail(what="%s has %d addresses" % (name, len(vals)))
                out.append((name, int(p[2]), int(p[4]), next(iter(vals))))
    return out


def av(player, prop):
    ops = tick_ops(player)
    have = set((t, p) for _, t, p, _ in ops)
    for t in range(4, 68, 2):
        for p in range(32, 64):
            if (t, p) not in have:
                fail(what="command op_tick_%d_page_%d does not exist" % (t, p))
    t0 = time.time()
    rounds = 0
    while rounds < 12 and time.time() - t0 < 60:
        rounds += 1
        for name, t, page, addr in ops:
            bus, cpu = machine(player, addr)
            cpu.a, cpu.y, cpu.x = rnd_byte(), rnd_byte(), 0
            data = [rnd_byte() for _ in range(9)]
            for i, b in enumerate(data):
                bus.rx[0x6000 + i] = b
            for a in range(0x2000, 0x4000):
                bus.mem[a] = player.image.get(a, 0) if False else 0x5a
            inp = dict(command=name, stream=data[:7], a=cpu.a, y=cpu.y)
            try:
                jpc = run_to_dispatch(cpu, bus, 200)
            except (Stop, KeyError) as e:
                if prop == "C17":
                    fail(what="%s: %s" % (name, e), input=inp)
                fail(what="%s: %s" % (name, e), input=inp)
            if prop == "C18":
                tk = [e[4] for e in bus.ev if e[1] == 0xc030]
                if cpu.processorCycles != 73:
                    fail(what="%s takes %d cycles" % (name, cpu.processorCycles), input=inp)
                tol = 1 if t in (22, 40) else 0
                if len(tk) != 2 or tk[0] != 3 or abs(tk[1] - tk[0] - t) > tol:
                    fail(what="%s toggles the speaker at cycles %s" % (name, tk), input=inp)
                continue
            want = {}
            for o in data[1:5]:
                want[page * 256 + o] = data[0]
            got = dict((a, v) for a, v in bus.writes if 0x2000 <= a < 0x4000)
            nst = len([1 for a, v in bus.writes if 0x2000 <= a < 0x4000])
            if got != want or nst != 4:
                fail(what="%s stores %s, want %s" % (name, got, want), input=inp)
            if len(bus.stream_reads) != 7:
                fail(what="%s consumes %d stream bytes" % (name, len(bus.stream_reads)), input=inp)
            if cpu.pc != data[5] * 256 + data[6]:
                fail(what="%s jumps to $%04X" % (name, cpu.pc), input=inp)
            if cpu.x != 0:
                fail(what="%s leaves X = %d" % (name, cpu.x), input=inp)
            for e in bus.ev:
                if e[1] not in (0xc030, 0xc097) or (e[1] == 0xc097 and e[0] == "w"):
                    fail(what="%s accesses I/O $%04X" % (name, e[1]), input=inp)
            for a, v in bus.writes:
                if 0x2000 <= a < 0x4000 or a in (jpc + 1, jpc + 2):
                    continue
                if a in player.image or 0x400 <= a < 0xc00 or 0xbf00 <= a < 0xc000:
                    fail(what="%s writes $%04X" % (name, a), input=inp)


def ack(player):
    addr = player.sym("op_ack")
    t0 = time.time()
    n = 0
    while n < 3000 and time.time() - t0 < 60:
        n += 1
        blk = n % 4
        ptr = 0x67fe + 0x800 * blk
        bus, cpu = machine(player, addr)
        cpu.a, cpu.y, cpu.x = rnd_byte(), rnd_byte(), 0
        data = [rnd_byte() for _ in range(6)]
        if n < 9:
            data[0] = (0x54, 0x55)[n % 2]
        if data[0] in (0x30, 0x00, 0x10) or data[0] & 0xf0 == 0x90:
            data[0] = 0x55          # the network card and the speaker are not display soft switches
        bus.ptr = ptr
        a = ptr
        pos = []
        for b in data:
            bus.rx[a] = b
            pos.append(a)
            a = 0x6000 if a == 0x7fff else a + 1
        hi, lo = rnd_byte(), rnd_byte()
        bus.regs[0x428], bus.regs[0x429] = hi, lo
        wait = RNG.choice([0, 0, 0, 1, 3])
        key = RNG.random() < 0.3
        sizes = [rnd_byte() & 7 for _ in range(wait)] + [8 + RNG.randrange(24)]
        full = list(sizes)
        bus.rsr = lambda: sizes.pop(0) if len(sizes) > 1 else sizes[0]
        keys = [0xc1, 0x41, 0x20, 0xa0] if key else [0x41]
        bus.kbd = lambda: keys.pop(0) if len(keys) > 1 else keys[0]
        inp = dict(command="op_ack", block=blk, stream=data[:4], read_pointer=[hi, lo], sizes=full, key=key)
        try:
            jpc = run_to_dispatch(cpu, bus, 3000)
        except (Stop, KeyError) as e:
            fail(what="op_ack: %s" % (e,), input=inp)
        sw = 0xc000 + data[0]
        if bus.stream_reads != pos[:4]:
            fail(what="op_ack reads stream at %s, want %s" % (bus.stream_reads, pos[:4]), input=inp)
        if cpu.pc != data[2] * 256 + data[3] or cpu.x != 0:
            fail(what="op_ack continues at $%04X with X=%d" % (cpu.pc, cpu.x), input=inp)
        if not any(e[1] == sw for e in bus.ev):
            fail(what="soft switch $%04X not accessed" % sw, input=inp)
        dw = [(e[3], e[2]) for e in bus.ev if e[0] == "w" and e[1] == 0xc097]
        if sw != 0xc097:
            if [x for x in dw if x[0] != 0x429] != [(0x428, (hi + 8) & 255), (0x401, 0x40)] or \
                    any(x != (0x429, lo) for x in dw if x[0] == 0x429):
                fail(what="op_ack writes adapter registers %s" % dw, input=inp)
        polled = [e[2] for e in bus.ev if e[1] == 0xc097 and e[3] == 0x426]
        if not polled or polled[-1] < 8:
            fail(what="op_ack resumes without 2048 bytes available", input=inp)
        own = (jpc + 1, jpc + 2)
        for a, v in bus.writes:
            if 0x2000 <= a < 0x4000:
                fail(what="op_ack writes screen $%04X" % a, input=inp)
        if wait == 0 and not key:
            if cpu.processorCycles != 146:
                fail(what="op_ack takes %d cycles" % cpu.processorCycles, input=inp)
            if sw != 0xc030:
                tk = [e[4] for e in bus.ev if e[1] == 0xc030] + [149]
                d = [b - a for a, b in zip(tk, tk[1:])]
                if len(tk) != 5 or tk[0] != 3 or not all(34 <= x <= 39 for x in d):
                    fail(what="op_ack toggles the speaker at %s" % tk, input=inp)


def startup(player):
    img = player.image
    t0 = time.time()
    n = 0
    while n < 200 and time.time() - t0 < 60:
        n += 1
        bus, cpu = machine(player, min(img))
        mode = n % 2
        data = [rnd_byte() for _ in range(6)] + [mode] + [rnd_byte() for _ in range(4)]
        for i, b in enumerate(data):
            bus.rx[0x6000 + i] = b
        bus.mem[0xbf00] = 0x60
        fails = RNG.choice([0, 0, 1, 3])
        st = []
        for _ in range(fails):
            st += [0x13, 0x14, 0]
        st += [0x13, 0x14, 0x15, 0x17]
        full = list(st)
        bus.status = lambda: st.pop(0) if len(st) > 1 else st[0]
        sz = [0, 0, 1, 4, 8] if n % 3 else [8]
        bus.rsr = lambda: sz.pop(0) if len(sz) > 1 else sz[0]
        inp = dict(stream=data[:9], status=full, mode=mode)
        snap = []
        orig = bus.__class__.__setitem__
        try:
            run_to_dispatch(cpu, bus, 6000)
        except (Stop, KeyError) as e:
            fail(what="start-up: %s" % (e,), input=inp)
        if bus.stream_reads != [0x6000 + i for i in range(9)]:
            fail(what="start-up reads stream at %s" % [hex(x) for x in bus.stream_reads], input=inp)
        if cpu.pc != data[7] * 256 + data[8] or cpu.x != 0:
            fail(what="playback starts at $%04X with X=%d" % (cpu.pc, cpu.x), input=inp)
        need = dict(TEXT=0, MIXED=0, HIRES=1, PAGE2=0) if mode == 0 else \
            {"TEXT": 0, "MIXED": 0, "HIRES": 1, "PAGE2": 0, "DHIRES": 1, "80STORE": 1, "80COL": 1}
        for k, v in need.items():
            if bus.sw.get(k, 0 if k == "PAGE2" else None) != v:
                fail(what="soft switches %s" % bus.sw, input=inp)
        if mode == 0 and any(bus.sw.get(k) for k in ("DHIRES", "80STORE", "80COL")):
            fail(what="HGR soft switches %s" % bus.sw, input=inp)
        if set(bus.cleared) != set([(0x20, "main")] + ([(0x20, "aux")] if mode else [])):
            fail(what="cleared %s" % bus.cleared, input=inp)
        last = {}
        kopen = max(i for i, e in enumerate(bus.ev) if e[0] == "w" and e[1] == 0xc097 and e[3] == 0x401
                    and e[2] == 1)
        for e in bus.ev[:kopen]:
            if e[0] == "w" and e[1] == 0xc094 and e[2] & 0x80:
                last = {}
            if e[0] == "w" and e[1] == 0xc097:
                last[e[3]] = e[2]
        want = {0x1a: 3}
        for base, label, ln in ((0x09, "MAC", 6), (0x0f, "SRCADDR", 4), (0x40c, "FADDR", 4), (0x410, "FPORT", 2)):
            for k in range(ln):
                want[base + k] = img[player.sym(label) + k]
        for k, v in want.items():
            if last.get(k) != v:
                fail(what="adapter register $%04X is %s, want %s" % (k, last.get(k), v), input=inp)


def emitted(player):
    """Execute the bytes the transcoder emits for each command on the assembled player."""
    import opcodes
    import video_mode
    from machine import Machine

    def word(bs, label, inp):
        a = player.sym(label)
        if len(bs) < 2 or list(bs[:2]) != [a >> 8, a & 255]:
            fail(what="bytes %s emitted for %s, which is at $%04X" % (bs, label, a), input=inp)
        return a
    for t in range(4, 68, 2):
        for p in range(32, 64):
            c, offs = rnd_byte(), RNG.sample(range(256), 4)
            label = "op_tick_%d_page_%d" % (t, p)
            inp = dict(command=label, content=c, offsets=offs)
            op = opcodes.TICK_OPCODES[(t, p)](c, offs)
            bs = list(Machine().emit(op))
            a = word(bs, label, inp)
            bus, cpu = machine(player, a)
            cpu.a, cpu.y, cpu.x = rnd_byte(), rnd_byte(), 0
            data = bs[2:] + [0x12, 0x34, 0x56, 0x78]
            for i, b in enumerate(data):
                bus.rx[0x6000 + i] = b
            try:
                run_to_dispatch(cpu, bus, 200)
            except (Stop, KeyError) as e:
                fail(what="%s: %s" % (label, e), input=inp)
            got = dict((x, v) for x, v in bus.writes if 0x2000 <= x < 0x4000)
            if got != dict((p * 256 + o, c) for o in offs) or len(bs) != 7 or cpu.pc != 0x1234:
                fail(what="bytes %s of %s store %s and continue at $%04X" % (bs, label, got, cpu.pc), input=inp)
    for aux in (False, True):
        bs = list(Machine().emit(opcodes.Ack(aux_active=aux)))
        inp = dict(command="op_ack", aux_active=aux)
        a = word(bs, "op_ack", inp)
        bus, cpu = machine(player, a)
        cpu.a, cpu.y, cpu.x = rnd_byte(), rnd_byte(), 0
        bus.ptr = p = 0x67fe
        for b in bs[2:] + [0x12, 0x34, 0x56, 0x78]:
            bus.rx[p] = b
            p += 1
        try:
            run_to_dispatch(cpu, bus, 3000)
        except (Stop, KeyError) as e:
            fail(what="op_ack: %s" % (e,), input=inp)
        sw = set(e[1] for e in bus.ev) & {0xc054, 0xc055}
        if len(bs) != 4 or cpu.pc != 0x1234 or sw != {0xc055 if aux else 0xc054}:
            fail(what="bytes %s of ACK touch %s and continue at $%04X" % (bs, sw, cpu.pc), input=inp)
    bs = list(Machine().emit(opcodes.Terminate()))
    word(bs, "op_terminate", dict(command="op_terminate"))
    if len(bs) != 2:
        fail(what="bytes %s of terminate" % bs, input=dict(command="op_terminate"))
    for mode, v in ((video_mode.VideoMode.HGR, 0), (video_mode.VideoMode.DHGR, 1)):
        bs = list(Machine().emit(opcodes.Header(mode=mode)))
        if len(bs) != 7 or bs[6] != v:
            fail(what="header bytes %s" % bs, input=dict(mode=str(mode)))
    startup(player)
    ack(player)


def main():
    player = build.build()
    if sys.argv[1] == "C02":
        return emitted(player)
    p = sys.argv[1]
    if p in ("C17", "C18"):
        av(player, p)
    elif p == "C19":
        ack(player)
    elif p == "C20":
        startup(player)


main()
