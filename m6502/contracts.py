"""Contracts of the player's entry points and the obligations they generate."""
import multiprocessing
import z3
from core.report import Check
from . import build, ops, selftest
from .cpu import isc, simp, bv, same, Unsupported
from .player import PlayerMachine, fresh_state, TICK, WDATA, WADRH, WADRL, WMODE, KBD, KBDSTRB

_P = {}
ACK_PTRS = {0: 0x67fe, 1: 0x6ffe, 2: 0x77fe, 3: 0x7ffe}
TICKS = list(range(4, 68, 2))
PAGES = list(range(32, 64))
SPACING = {t: (t,) for t in TICKS}
SPACING[22], SPACING[40] = (21, 22, 23), (39, 40, 41)   # "2 of these 32 duty cycles are off by one" (README)

ASSUMPTIONS = [
    "NMOS 6502 instruction semantics and cycle counts as in m6502/cpu.py (cross-checked against py65 by the self-test)",
    "decimal flag clear on entry (ProDOS convention); interrupts do not occur",
    "W5100 indirect port: auto-increment, receive buffer wraps from $7FFF to $6000 (8 KB socket buffer)",
]


def eq(a, b):
    if isc(a) and isc(b):
        return a == b
    w = a.size() if not isc(a) else b.size()
    return simp_bool(bv(a, w) == bv(b, w))


def simp_bool(t):
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else t


def load():
    if "player" not in _P:
        _P["player"] = build.build()
        _P["cells"] = None
    return _P["player"]


def entry_points(player):
    """Decode-loop entry points, with the pointer/X preconditions under which they are explored."""
    e = []
    for (t, p), vals in sorted(ops.tick_entries(player).items()):
        for v in vals:
            e.append((v, None, 0))
    for ptr in ACK_PTRS.values():
        e.append((player.sym("op_ack"), ptr, 0))
    return e


def _cells_job(args):
    chunk, cells = args
    player = _P["player"]
    new = set()
    m = PlayerMachine(player.image)
    for pc, ptr, x0 in chunk:
        st = fresh_state(player, m, pc, cells, ptr=ptr)
        st.x = x0
        try:
            for p in m.run(st):
                for (addr, lo, hi, val, at) in p.writes:
                    if isc(addr) and addr in player.image:
                        new.add(addr)
        except Unsupported:
            pass        # reported when the entry point's own contract is checked
    return new


def pool(n=8):
    return multiprocessing.get_context("fork").Pool(n)


def cells():
    """Code cells that some decode-loop entry point may modify; havoced before every entry point."""
    if _P.get("cells") is None:
        player = load()
        ent = entry_points(player)
        cur = set()
        for _ in range(5):
            with pool() as pl:
                res = pl.map(_cells_job, [(ent[k::16], cur) for k in range(16)])
            new = cur.union(*res)
            if new == cur:
                break
            cur = new
        else:
            raise Unsupported("modified code cells do not stabilise")
        _P["cells"] = cur
    return _P["cells"]


def describe(p):
    return "end=%s pc=%s cyc=%d x=%s events=%s" % (
        p.status, p.pc, p.cyc, p.x,
        [(c, k, hex(a) if isc(a) else str(a)) for c, k, a, v, e, _ in p.events][:40])


def tick_paths(player, addr, havoc):
    m = PlayerMachine(player.image)
    m.no_fetch = [(0x2000, 0x3fff)]
    st = fresh_state(player, m, addr, havoc, ptr=None)
    st.x = 0
    return m.run(st), m


def writes_split(p):
    """(screen/symbolic writes, concrete code writes, scratch writes, stack writes, others)"""
    scr, code, other = [], [], []
    for (addr, lo, hi, val, at) in p.writes:
        if hi <= 0xff or lo >= 0xd000:
            continue                     # zero-page / ROM scratch store (cycle padding)
        if lo >= 0x2000 and hi <= 0x3fff:
            scr.append((addr, val))
        else:
            (code if isc(addr) else other).append((addr, val))
    return scr, code, other


def check_semantics(chk, name, player, addr, page, havoc):
    paths, m = tick_paths(player, addr, havoc)
    s = [z3.BitVec("s%d" % k, 8) for k in range(7)]
    chk.ob("%s:paths" % name, len(paths) >= 1)
    for i, p in enumerate(paths):
        pre = "%s:path%d:" % (name, i)
        chk.ob(pre + "ends-in-dispatch", p.status == "dispatch" and not p.extra.get("bad"), describe(p))
        if p.status != "dispatch":
            continue
        data = [e for e in p.events if e[2] != TICK]
        chk.ob(pre + "io-frame", all(isc(a) and a == WDATA and k == "r" for _, k, a, _, _, _ in data), describe(p))
        chk.ob(pre + "seven-stream-reads", len(data) == 7, describe(p))
        if len(data) == 7 and all(k == "r" for _, k, *_ in data):
            chk.prove(pre + "jump-target", p.pc_cond, eq(p.pc, z3.Concat(s[5], s[6])), describe(p))
        else:
            chk.ob(pre + "jump-target", False, describe(p))
        chk.prove(pre + "x-zero", p.pc_cond, eq(p.x, 0), describe(p))
        chk.ob(pre + "sp-preserved", p.sp == 0xff)
        chk.ob(pre + "decimal-clear", p.d is False)
        scr, code, other = writes_split(p)
        want = [z3.Concat(z3.BitVecVal(page, 8), s[1 + k]) for k in range(4)]
        chk.ob(pre + "four-screen-stores", len(scr) == 4, str(scr))
        if len(scr) == 4:
            # as a multiset: all four stores carry the same value, so order is irrelevant
            rest = list(range(4))
            for k in range(4):
                hit = [r for r in rest if same(scr[r][0], simp(want[k]))]
                ok = bool(hit)
                chk.ob(pre + "store-address-%d" % k, ok, str(scr), backend="z3-simplify")
                if ok:
                    rest.remove(hit[0])
                chk.prove(pre + "store-value-%d" % k, p.pc_cond, eq(scr[k][1], s[0]), str(scr))
        last = p.trace[-1]
        own = {last + 1, last + 2}
        chk.ob(pre + "code-frame", not other and all(a in own for a, _ in code),
               "writes %s, last jump at %04x" % ([hex(a) if isc(a) else str(a) for a, _ in code + other], last))


def check_timing(chk, name, player, addr, tick, havoc):
    paths, m = tick_paths(player, addr, havoc)
    chk.ob("%s:paths" % name, len(paths) >= 1)
    for i, p in enumerate(paths):
        pre = "%s:path%d:" % (name, i)
        chk.ob(pre + "ends-in-dispatch", p.status == "dispatch", describe(p))
        if p.status != "dispatch":
            continue
        chk.ob(pre + "73-cycles", p.cyc == 73, "takes %d cycles" % p.cyc)
        t = [c for c, k, a, v, e, _ in p.events if isc(a) and a == TICK]
        chk.ob(pre + "two-ticks", len(t) == 2, "ticks at cycles %s" % t)
        chk.ob(pre + "first-tick-first", t[:1] == [3] and len(p.trace) > 0, "ticks at cycles %s" % t)
        chk.ob(pre + "tick-spacing", len(t) == 2 and t[1] - t[0] in SPACING[tick],
               "ticks %s cycles apart, want %s" % ([b - a for a, b in zip(t, t[1:])], SPACING[tick]))


def _tick_job(args):
    kind, chunk, havoc, tier = args
    chk = Check("part", tier)
    player = _P["player"]
    ent = ops.tick_entries(player)
    for (t, pg) in chunk:
        name = "op_tick_%d_page_%d" % (t, pg)
        vals = ent.get((t, pg), ())
        if not chk.ob(name + ":one-entry-point", len(vals) == 1, "entry points: %s" % sorted(vals)):
            continue
        addr = next(iter(vals))
        try:
            if kind == "sem":
                check_semantics(chk, name, player, addr, pg, havoc)
            else:
                check_timing(chk, name, player, addr, t, havoc)
        except Unsupported as e:
            chk.undecided(name + ":engine", e)
        chk.under_contract("main.s:" + name)
    return chk.export()


def all_ticks(chk, kind):
    player = load()
    hv = cells()
    keys = [(t, p) for t in TICKS for p in PAGES]
    with pool() as pl:
        for rec in pl.map(_tick_job, [(kind, keys[k::32], hv, chk.tier) for k in range(32)]):
            chk.merge(rec)
    common(chk)


def common(chk):
    selftest.run(chk, 2 if chk.tier == "quick" else 12)
    for a in ASSUMPTIONS:
        chk.assume(a)
    chk.trust("m6502 symbolic executor (/verif/m6502/cpu.py, player.py)")
    chk.trust("ca65/ld65 (cc65) assembling /repo/player on every run")
    chk.trust("z3 4.x (simplifier and solver)")


IO_OK = (TICK, WDATA, WADRH, WADRL, KBD, KBDSTRB)


def rx_next(ptr, n):
    for _ in range(n):
        ptr = 0x6000 if ptr == 0x7fff else ptr + 1
    return ptr


def jmp_operands(p, player):
    """Operand bytes of the last executed instruction (the dispatching jump)."""
    last = p.trace[-1]
    return {last + 1, last + 2}


def check_ack(chk, player, block, ptr, havoc):
    name = "op_ack@block%d" % block
    m = PlayerMachine(player.image)
    m.no_fetch = [(0x2000, 0x3fff)]
    st = fresh_state(player, m, player.sym("op_ack"), havoc, ptr=ptr)
    st.x = 0
    paths = m.run(st)
    s = [z3.BitVec("s%d" % k, 8) for k in range(4)]
    rd_hi, rd_lo = z3.BitVec("dev_0428", 8), z3.BitVec("dev_0429", 8)
    fast = 0
    for i, p in enumerate(paths):
        pre = "%s:path%d:" % (name, i)
        ok = p.status in ("dispatch", "closed") and not p.extra.get("bad")
        chk.ob(pre + "ends", ok, describe(p) + " " + str(p.extra.get("bad")))
        sym = [e for e in p.events if e[1] in "rw" and not isc(e[2])]
        conc = [e for e in p.events if e[1] in ("r", "w") and isc(e[2])]
        chk.ob(pre + "io-frame", all(e[2] in IO_OK for e in conc) and
               all(e[1] == "r" for e in conc if e[2] == KBD), describe(p))
        chk.ob(pre + "one-soft-switch-access", len(sym) == 1, describe(p))
        if len(sym) == 1:
            chk.prove(pre + "soft-switch-address", p.pc_cond,
                      eq(sym[0][2], z3.Concat(z3.BitVecVal(0xc0, 8), s[0])), describe(p))
        stream = [e for e in conc if e[1] == "r" and e[2] == WDATA and e[4] is not None and 0x6000 <= e[4] <= 0x7fff]
        nread = 2 if p.status == "closed" else 4
        want = [rx_next(ptr, k) for k in range(nread)]
        chk.ob(pre + "stream-read-positions", [e[4] for e in stream] == want,
               "reads at %s, want %s" % ([hex(e[4]) for e in stream], [hex(w) for w in want]))
        dw = [(k, e) for k, e in enumerate(p.events) if e[1] == "w" and e[2] == WDATA if isc(e[2])]
        hi = [e for _, e in dw if e[4] == 0x0428]
        lo = [e for _, e in dw if e[4] == 0x0429]
        cmd = [(k, e) for k, e in dw if e[4] == 0x0401]
        chk.ob(pre + "device-write-frame", all(e[4] in (0x0428, 0x0429, 0x0401) for _, e in dw), describe(p))
        chk.ob(pre + "read-pointer-written-once", len(hi) == 1 and len(lo) <= 1, describe(p))
        if len(hi) == 1:
            chk.prove(pre + "read-pointer-plus-2048", p.pc_cond, eq(hi[0][3], rd_hi + 8), str(hi[0][3]))
        for e in lo:
            chk.prove(pre + "read-pointer-low-kept", p.pc_cond, eq(e[3], rd_lo), str(e[3]))
        chk.ob(pre + "one-receive-command", len(cmd) == 1 and isc(cmd[0][1][3]) and cmd[0][1][3] == 0x40, describe(p))
        if len(cmd) == 1:
            kcmd = cmd[0][0]
            chk.ob(pre + "receive-after-pointer-update", all(k < kcmd for k, e in dw if e[4] in (0x428, 0x429)),
                   describe(p))
            sizes = [(k, e) for k, e in enumerate(p.events)
                     if e[1] == "r" and isc(e[2]) and e[2] == WDATA and e[4] == 0x0426]
            if p.status == "dispatch":
                kres = [k for k, e in enumerate(p.events) if e in stream[2:3]]
                good = [e for k, e in sizes if k > kcmd and (not kres or k < kres[0])]
                chk.ob(pre + "polls-received-size", bool(good), describe(p))
                if good:
                    chk.prove(pre + "waits-for-2048-bytes", p.pc_cond, z3.UGE(bv(good[-1][3]), 8), describe(p))
        # frame
        scr, code, other = writes_split(p)
        own = set()
        if p.status == "dispatch":
            own |= jmp_operands(p, player)
        for e in sym:
            own |= {e[5] + 1, e[5] + 2}
        chk.ob(pre + "memory-frame", not scr and not other and all(a in own for a, _ in code),
               "writes to %s" % [hex(a) if isc(a) else str(a) for a, _ in scr + code + other])
        chk.ob(pre + "sp-and-decimal", p.sp == 0xff and p.d is False)
        if p.status != "dispatch":
            continue
        chk.prove(pre + "x-zero", p.pc_cond, eq(p.x, 0), describe(p))
        chk.prove(pre + "next-command", p.pc_cond, eq(p.pc, z3.Concat(s[2], s[3])), str(p.pc))
        # timing: data available at the first poll, no key pressed at any poll
        sizes = [e for e in p.events if e[1] == "r" and isc(e[2]) and e[2] == WDATA and e[4] == 0x0426]
        keys = [e for e in p.events if e[1] == "r" and isc(e[2]) and e[2] == KBD]
        hyp = list(p.pc_cond)
        if sizes:
            hyp.append(z3.UGE(bv(sizes[0][3]), 8))
        hyp += [z3.Extract(7, 7, bv(k[3])) == 0 for k in keys]
        if m.feasible(hyp):
            fast += 1
            chk.ob(pre + "146-cycles", p.cyc == 146, "takes %d cycles" % p.cyc)
            t = [c for c, k, a, v, e, _ in p.events if isc(a) and a == TICK] + [p.cyc + 3]
            chk.ob(pre + "four-ticks", len(t) == 5 and t[0] == 3 and
                   all(34 <= b - a <= 39 for a, b in zip(t, t[1:])), "ticks at %s" % t)
    chk.ob(name + ":fast-path-exists", fast >= 1, "no path with data available and no key pressed")
    chk.under_contract("main.s:op_ack", "main.s:checkrecv", "main.s:recv", "main.s:op_nop")


def check_startup(chk, player, havoc):
    name = "startup"
    m = PlayerMachine(player.image)
    start = min(player.image)
    m.cut_first = True
    st = fresh_state(player, m, start, (), ptr=0x5500)
    st.dev.ptr_lo_unknown = True
    paths = m.run(st)
    s = [z3.BitVec("s%d" % k, 8) for k in range(9)]
    img = player.image

    def table(label, n):
        a = player.sym(label)
        return [img[a + k] for k in range(n)]
    conf = {}
    for base, label, n in ((0x09, "MAC", 6), (0x0f, "SRCADDR", 4), (0x40c, "FADDR", 4), (0x410, "FPORT", 2)):
        for k, b in enumerate(table(label, n)):
            conf[base + k] = b
    ndisp = {0: 0, 1: 0}
    for i, p in enumerate(paths):
        pre = "%s:path%d:" % (name, i)
        chk.ob(pre + "ends", p.status in ("dispatch", "closed", "brk") and not p.extra.get("bad"),
               describe(p) + str(p.extra.get("bad")))
        ev = p.events
        cmds = [(k, e) for k, e in enumerate(ev) if e[1] == "w" and isc(e[2]) and e[2] == WDATA and e[4] == 0x401]
        stats = [(k, e) for k, e in enumerate(ev) if e[1] == "r" and isc(e[2]) and e[2] == WDATA and e[4] == 0x403]
        stream = [(k, e) for k, e in enumerate(ev)
                  if e[1] == "r" and isc(e[2]) and e[2] == WDATA and e[4] is not None and 0x6000 <= e[4] <= 0x7fff]
        chk.ob(pre + "socket-commands", all(isc(e[3]) and e[3] in (1, 4) for _, e in cmds), describe(p))
        if p.status == "closed":
            loops = [k for k, e in enumerate(ev) if e[1] == "loop"]
            chk.ob(pre + "no-endless-retry", all(k < loops[-1] for k, _ in cmds), describe(p))
        if p.status in ("closed", "brk"):
            chk.ob(pre + "nothing-after-error", p.status == "closed" or not stream, describe(p))
            continue
        # every CONNECT follows an OPEN whose status read said SOCK_INIT
        for j, (k, e) in enumerate(cmds):
            if e[3] == 4:
                prev = [kk for kk, ee in cmds[:j] if ee[3] == 1]
                sr = [ee for kk, ee in stats if prev and prev[-1] < kk < k]
                chk.ob(pre + "connect-%d-after-open" % j, bool(sr))
                if sr:
                    chk.prove(pre + "connect-%d-socket-init" % j, p.pc_cond, eq(sr[-1][3], 0x13))
        order = [e[3] for _, e in cmds]
        chk.ob(pre + "open-then-connect", order[-2:] == [1, 4] and len(order) % 2 == 0, str(order))
        kopen = cmds[-2][0] if len(cmds) >= 2 else -1
        kconn = cmds[-1][0] if cmds else -1
        sr = [ee for kk, ee in stats if kk > kconn]
        chk.ob(pre + "status-polled", bool(sr))
        if sr:
            chk.prove(pre + "connection-established", p.pc_cond, eq(sr[-1][3], 0x17))
        # configuration at the time of the last OPEN
        cur, mode = {}, None
        for e in ev[:kopen]:
            if e[1] == "w" and isc(e[2]) and e[2] == WDATA and e[4] is not None:
                cur[e[4]] = e[3]
            if e[1] == "w" and isc(e[2]) and e[2] == WMODE:
                mode = e[3]
                if isc(mode) and mode & 0x80:
                    cur = {}
        chk.ob(pre + "adapter-mode", isc(mode) and mode & 0x83 == 3, str(mode))
        chk.ob(pre + "adapter-addresses", all(cur.get(a) == b for a, b in conf.items()),
               "configured %s, want %s" % ({hex(k): v for k, v in cur.items()}, {hex(k): v for k, v in conf.items()}))
        chk.ob(pre + "rx-buffer-8k", cur.get(0x1a) == 3, str(cur.get(0x1a)))
        chk.ob(pre + "tcp-mode", isc(cur.get(0x400)) and cur[0x400] & 0x8f == 1, str(cur.get(0x400)))
        # stream consumption
        want = [0x6000 + k for k in range(9)]
        chk.ob(pre + "header-bytes-then-command", [e[4] for _, e in stream] == want,
               str([hex(e[4]) for _, e in stream]))
        if len(stream) == 9:
            k0, k7 = stream[0][0], stream[7][0]
            sz = [(k, e) for k, e in enumerate(ev) if e[1] == "r" and isc(e[2]) and e[2] == WDATA and e[4] == 0x426]
            a = [e for k, e in sz if kconn < k < k0]
            chk.ob(pre + "data-polled-before-header", bool(a))
            if a:
                chk.prove(pre + "data-before-header", p.pc_cond, z3.UGE(bv(a[-1][3]), 1))
            b = [e for k, e in sz if stream[6][0] < k < k7]
            chk.ob(pre + "block-polled-before-playing", bool(b))
            if b:
                chk.prove(pre + "block-before-playing", p.pc_cond, z3.UGE(bv(b[-1][3]), 8))
            chk.prove(pre + "first-command", p.pc_cond, eq(p.pc, z3.Concat(s[7], s[8])), str(p.pc))
        chk.prove(pre + "x-zero", p.pc_cond, eq(p.x, 0))
        chk.ob(pre + "sp-and-decimal", p.sp == 0xff and p.d is False)
        sw, clears = p.extra.get("sw", {}), p.extra.get("clears", [])
        for mode in (0, 1):
            if not m.feasible(p.pc_cond + [s[6] == mode]):
                continue
            ndisp[mode] += 1
            q = pre + ("hgr:" if mode == 0 else "dhgr:")
            if mode == 0:
                need = dict(TEXT="off", MIXED="off", HIRES="on")
                deny = dict(PAGE2="on", DHIRES="on")
                deny["80STORE"] = "on"
                deny["80COL"] = "on"
                cl = {"main"}
            else:
                need = dict(TEXT="off", MIXED="off", HIRES="on", PAGE2="off", DHIRES="on")
                need["80STORE"] = "on"
                need["80COL"] = "on"
                deny = {}
                cl = {"main", "aux"}
            chk.ob(q + "soft-switches", all(sw.get(k) == v for k, v in need.items()) and
                   not any(sw.get(k) == v for k, v in deny.items()), str(sw))
            chk.ob(q + "screen-cleared", {b for _, b in clears} == cl and all(a == 0x20 for a, _ in clears),
                   str(clears))
        # frame: the code segments are intact apart from the dispatching jump
        bad = [(a, lo, hi) for (a, lo, hi, v, at) in p.writes
               if any(x in img and not 0x2000 <= x <= 0x3fff for x in ((a,) if isc(a) else range(lo, hi + 1)))
               and not (isc(a) and a in jmp_operands(p, player))]
        chk.ob(pre + "code-frame", not bad, str(bad))
    chk.ob(name + ":reaches-hgr-playback", ndisp[0] > 0)
    chk.ob(name + ":reaches-dhgr-playback", ndisp[1] > 0)
    chk.under_contract("main.s:bootstrap", "main.s:reset_w5100", "main.s:wait_read_header", "main.s:op_header",
                       "main.s:_op_header_hgr", "main.s:checkrecv", "main.s:recv", "main.s:op_nop")
    chk.assume("ROM entry $F3F2 clears the 8 KB screen at page $E6 in the bank selected by 80STORE/PAGE2/HIRES and "
               "clobbers A, X, Y; $FDED preserves A, X, Y")
    chk.assume("soft switches at power-up: PAGE2, 80STORE, 80COL and DHIRES off (ProDOS 40-column state)")


def check_terminate(chk, player, havoc):
    """op_terminate: the film stays on screen until a key is pressed, then control returns to ProDOS; the stream is
    not read any further and the screen is not touched."""
    name = "op_terminate"
    m = PlayerMachine(player.image)
    m.no_fetch = [(0x2000, 0x3fff)]
    st = fresh_state(player, m, player.sym("op_terminate"), havoc, ptr=None)
    st.x = 0
    paths = m.run(st)
    for i, p in enumerate(paths):
        pre = "%s:path%d:" % (name, i)
        chk.ob(pre + "ends", p.status in ("closed", "prodos-65") and not p.extra.get("bad"), describe(p))
        io = [e for e in p.events if e[1] in ("r", "w")]
        chk.ob(pre + "no-stream-reads", all(isc(e[2]) and e[2] in (KBD, KBDSTRB) for e in io), describe(p))
        scr, _, other = writes_split(p)
        chk.ob(pre + "screen-untouched", not scr and not other, str(scr + other))
        if p.status == "closed":
            chk.prove(pre + "waits-only-without-key", p.pc_cond, z3.And(*[
                z3.Extract(7, 7, bv(e[3])) == 0 for e in io[-1:] if isc(e[2]) and e[2] == KBD]), describe(p))
    chk.ob(name + ":quits", any(p.status == "prodos-65" for p in paths))
    chk.under_contract("main.s:op_terminate", "main.s:exit")
