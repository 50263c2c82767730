"""Symbolic execution of 6502 machine code (documented NMOS 6502 instruction set).

Values are Python ints (0..255) or z3 8-bit terms.  A State is one symbolic path: registers,
memory (assembled image + writes), bus events with their cycle time, path condition.
Branches on symbolic flags fork; infeasible sides are pruned with z3.
Every bus access outside plain RAM/ROM (page $C0xx) is an event; every memory write is logged.
"""
import z3

# mnemonic -> list of (opcode, mode, cycles, +1 on page cross)
_T = """
ADC 69 imm 2|65 zp 3|75 zpx 4|6D abs 4|7D abx 4+|79 aby 4+|61 izx 6|71 izy 5+
AND 29 imm 2|25 zp 3|35 zpx 4|2D abs 4|3D abx 4+|39 aby 4+|21 izx 6|31 izy 5+
ASL 0A acc 2|06 zp 5|16 zpx 6|0E abs 6|1E abx 7
BCC 90 rel 2
BCS B0 rel 2
BEQ F0 rel 2
BMI 30 rel 2
BNE D0 rel 2
BPL 10 rel 2
BVC 50 rel 2
BVS 70 rel 2
BIT 24 zp 3|2C abs 4
BRK 00 imp 7
CLC 18 imp 2
CLD D8 imp 2
CLI 58 imp 2
CLV B8 imp 2
CMP C9 imm 2|C5 zp 3|D5 zpx 4|CD abs 4|DD abx 4+|D9 aby 4+|C1 izx 6|D1 izy 5+
CPX E0 imm 2|E4 zp 3|EC abs 4
CPY C0 imm 2|C4 zp 3|CC abs 4
DEC C6 zp 5|D6 zpx 6|CE abs 6|DE abx 7
DEX CA imp 2
DEY 88 imp 2
EOR 49 imm 2|45 zp 3|55 zpx 4|4D abs 4|5D abx 4+|59 aby 4+|41 izx 6|51 izy 5+
INC E6 zp 5|F6 zpx 6|EE abs 6|FE abx 7
INX E8 imp 2
INY C8 imp 2
JMP 4C abs 3|6C ind 5
JSR 20 abs 6
LDA A9 imm 2|A5 zp 3|B5 zpx 4|AD abs 4|BD abx 4+|B9 aby 4+|A1 izx 6|B1 izy 5+
LDX A2 imm 2|A6 zp 3|B6 zpy 4|AE abs 4|BE aby 4+
LDY A0 imm 2|A4 zp 3|B4 zpx 4|AC abs 4|BC abx 4+
LSR 4A acc 2|46 zp 5|56 zpx 6|4E abs 6|5E abx 7
NOP EA imp 2
ORA 09 imm 2|05 zp 3|15 zpx 4|0D abs 4|1D abx 4+|19 aby 4+|01 izx 6|11 izy 5+
PHA 48 imp 3
PHP 08 imp 3
PLA 68 imp 4
PLP 28 imp 4
ROL 2A acc 2|26 zp 5|36 zpx 6|2E abs 6|3E abx 7
ROR 6A acc 2|66 zp 5|76 zpx 6|6E abs 6|7E abx 7
RTI 40 imp 6
RTS 60 imp 6
SBC E9 imm 2|E5 zp 3|F5 zpx 4|ED abs 4|FD abx 4+|F9 aby 4+|E1 izx 6|F1 izy 5+
SEC 38 imp 2
SED F8 imp 2
SEI 78 imp 2
STA 85 zp 3|95 zpx 4|8D abs 4|9D abx 5|99 aby 5|81 izx 6|91 izy 6
STX 86 zp 3|96 zpy 4|8E abs 4
STY 84 zp 3|94 zpx 4|8C abs 4
TAX AA imp 2
TAY A8 imp 2
TSX BA imp 2
TXA 8A imp 2
TXS 9A imp 2
TYA 98 imp 2
"""
OPS = {}
for _l in _T.strip().split("\n"):
    _m, _rest = _l.split(" ", 1)
    for _e in _rest.split("|"):
        _o, _mode, _c = _e.split()
        OPS[int(_o, 16)] = (_m, _mode, int(_c.rstrip("+")), _c.endswith("+"))
assert len(OPS) == 151

LEN = dict(imm=2, zp=2, zpx=2, zpy=2, abs=3, abx=3, aby=3, ind=3, izx=2, izy=2, acc=1, imp=1, rel=2)


class Unsupported(Exception):
    pass


def isc(v):
    return isinstance(v, int)


def bv(v, n=8):
    return z3.BitVecVal(v, n) if isc(v) else v


def simp(t):
    if isc(t):
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def simpb(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def same(a, b):
    """Syntactic equality of values."""
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return type(a) == type(b) and not isinstance(a, z3.ExprRef) and a == b


class State:
    """One symbolic path."""

    def __init__(self, image):
        self.image = image          # shared, read only
        self.a = self.x = self.y = None
        self.sp = 0xff
        self.n = self.z = self.c = self.v = None
        self.d = False
        self.i = None
        self.pc = None
        self.mem = {}               # concrete-address writes newer than image
        self.symw = []              # symbolic-address writes (addr term, lo, hi, value)
        self.cyc = 0
        self.events = []            # (cycle, kind, addr, value)
        self.writes = []            # (addr or term, lo, hi, value) all memory writes
        self.pc_cond = []           # path condition
        self.trace = []             # executed pcs
        self.dev = None
        self.status = None          # why the path ended
        self.extra = {}

    def fork(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        for k in ("mem",):
            setattr(s, k, dict(getattr(self, k)))
        for k in ("symw", "events", "writes", "pc_cond", "trace"):
            setattr(s, k, list(getattr(self, k)))
        s.extra = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
                   for k, v in self.extra.items()}
        if self.dev is not None:
            s.dev = self.dev.fork()
        return s


class Machine:
    """Executes States.  Subclass hooks: io_read, io_write, on_jsr, stop."""

    def __init__(self, image, solver_timeout=20000):
        self.image = image
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout)
        self.queries = 0
        self._fresh = 0

    def fresh(self, name, bits=8):
        self._fresh += 1
        return z3.BitVec("%s!%d" % (name, self._fresh), bits)

    # ---- solver
    def feasible(self, conds):
        conds = [c for c in conds if c is not True]
        if any(c is False for c in conds):
            return False
        if not conds:
            return True
        self.queries += 1
        r = self.solver.check(*conds)
        if r == z3.unknown:
            raise Unsupported("solver unknown")
        return r == z3.sat

    # ---- memory
    def mread(self, st, addr):
        if isc(addr):
            val = st.mem.get(addr)
            if val is None:
                val = st.image.get(addr)
                if val is None:
                    val = self.uninit(st, addr)
            for (t, lo, hi, v, seq) in st.symw:
                if lo <= addr <= hi and seq > st.extra.get("mseq", {}).get(addr, -1):
                    val = simp(z3.If(t == addr, bv(v), bv(val)))
            return val
        raise Unsupported("read at symbolic address at pc=%04x" % st.pc)

    def uninit(self, st, addr):
        v = z3.BitVec("mem_%04x" % addr, 8)
        return v

    def mwrite(self, st, addr, lo, hi, val):
        seq = len(st.writes)
        st.writes.append((addr, lo, hi, val, st.pc))
        if isc(addr):
            st.mem[addr] = val
            ms = dict(st.extra.get("mseq", {}))
            ms[addr] = seq
            st.extra["mseq"] = ms
        else:
            st.symw.append((addr, lo, hi, val, seq))

    def read(self, st, addr, lo, hi):
        if hi < 0xc000 or lo > 0xc0ff:
            return self.mread(st, addr)
        if not isc(addr):
            return self.io_read_sym(st, addr, lo, hi)
        if 0xc000 <= addr <= 0xc0ff:
            return self.io_read(st, addr)
        return self.mread(st, addr)

    def write(self, st, addr, lo, hi, val):
        if hi < 0xc000 or lo > 0xc0ff:
            self.mwrite(st, addr, lo, hi, val)
        elif not isc(addr):
            self.io_write_sym(st, addr, lo, hi, val)
        elif 0xc000 <= addr <= 0xc0ff:
            self.io_write(st, addr, val)
        else:
            self.mwrite(st, addr, lo, hi, val)

    def io_read(self, st, addr):
        raise Unsupported("io read")

    def io_write(self, st, addr, val):
        raise Unsupported("io write")

    def io_read_sym(self, st, addr, lo, hi):
        raise Unsupported("symbolic io read at pc=%04x" % st.pc)

    def io_write_sym(self, st, addr, lo, hi, val):
        raise Unsupported("symbolic io write at pc=%04x" % st.pc)

    def on_jsr(self, st, target):
        """Return True if the call was handled (contract), else execute it."""
        return False

    def code_ok(self, st, pc):
        """May an instruction be fetched at pc?"""
        return True

    # ---- execution
    def setnz(self, st, v):
        if isc(v):
            st.n, st.z = v >= 0x80, v == 0
        else:
            st.n = simpb(z3.Extract(7, 7, v) == 1)
            st.z = simpb(v == 0)

    def fetch(self, st, addr):
        v = self.mread(st, addr & 0xffff)
        return v

    def step(self, st):
        """Execute one instruction; return list of successor states."""
        pc = st.pc
        if not self.code_ok(st, pc):
            st.status = "bad-fetch"
            return [st]
        op = self.fetch(st, pc)
        if not isc(op):
            st.status = "symbolic-opcode"
            return [st]
        if op not in OPS:
            st.status = "illegal-opcode %02x" % op
            return [st]
        mn, mode, cyc, cross = OPS[op]
        n = LEN[mode]
        st.trace.append(pc)
        opd = [self.fetch(st, pc + k) for k in range(1, n)]
        start = st.cyc
        nxt = (pc + n) & 0xffff

        # control transfers on symbolic operands are resolved by the caller
        if mn == "JMP" and mode == "abs":
            st.cyc += 3
            if isc(opd[0]) and isc(opd[1]):
                st.pc = opd[0] | opd[1] << 8
            else:
                st.pc = simp(z3.Concat(bv(opd[1]), bv(opd[0])))
            return [st]
        if any(not isc(o) for o in opd) and mn not in ("STA", "STX", "STY", "LDA", "LDX", "LDY",
                                                       "BIT", "INC", "DEC", "ORA", "AND", "EOR", "ADC", "SBC",
                                                       "CMP", "CPX", "CPY"):
            raise Unsupported("self-modified operand of %s at %04x" % (mn, pc))

        # addressing: list of (state, addr, lo, hi, crossed)
        alts = [(st, None, None, None, False)]
        if mode in ("zp", "zpx", "zpy", "izx", "izy"):
            if not isc(opd[0]):
                raise Unsupported("self-modified zero page operand at %04x" % pc)
        if mode == "zp":
            alts = [(st, opd[0], opd[0], opd[0], False)]
        elif mode in ("zpx", "zpy"):
            r = st.x if mode == "zpx" else st.y
            if isc(r):
                a = (opd[0] + r) & 0xff
                alts = [(st, a, a, a, False)]
            else:
                a = simp(z3.ZeroExt(8, bv(opd[0]) + r))
                alts = [(st, a, 0, 0xff, False)]
        elif mode == "abs":
            if isc(opd[0]) and isc(opd[1]):
                a = opd[0] | opd[1] << 8
                alts = [(st, a, a, a, False)]
            elif isc(opd[1]):
                a = simp(z3.Concat(bv(opd[1]), bv(opd[0])))
                alts = [(st, a, opd[1] << 8, opd[1] << 8 | 0xff, False)]
            else:
                a = simp(z3.Concat(bv(opd[1]), bv(opd[0])))
                alts = [(st, a, 0, 0xffff, False)]
        elif mode in ("abx", "aby"):
            r = st.x if mode == "abx" else st.y
            if not (isc(opd[0]) and isc(opd[1])):
                raise Unsupported("self-modified indexed operand at %04x" % pc)
            base = opd[0] | opd[1] << 8
            if isc(r):
                a = (base + r) & 0xffff
                alts = [(st, a, a, a, (a ^ base) & 0xff00 != 0)]
                un = (base & 0xff00) | (a & 0xff)
                self.dummy_access(st, mn, un, a, start)
            elif base & 0xff == 0:
                a = simp(z3.BitVecVal(base, 16) + z3.ZeroExt(8, r))
                alts = [(st, a, base, base + 0xff, False)]
                self.dummy_access(st, mn, a, a, start, base, base + 0xff)
            else:
                if base + 0xff > 0xffff:
                    raise Unsupported("indexed wrap")
                a = simp(z3.BitVecVal(base, 16) + z3.ZeroExt(8, r))
                lim = 0x100 - (base & 0xff)
                alts = []
                for cond, cr, lo, hi in ((z3.ULT(r, lim), False, base, base | 0xff),
                                         (z3.UGE(r, lim), True, (base | 0xff) + 1, base + 0xff)):
                    s2 = st.fork()
                    s2.pc_cond.append(cond)
                    if self.feasible(s2.pc_cond):
                        alts.append((s2, a, lo, hi, cr))
                if not (hi < 0xc000 or lo > 0xc0ff):
                    raise Unsupported("symbolic index near I/O")
        elif mode in ("izx", "izy"):
            if mode == "izx":
                if not isc(st.x):
                    raise Unsupported("izx with symbolic X")
                z = (opd[0] + st.x) & 0xff
            else:
                z = opd[0]
            lo8, hi8 = self.mread(st, z), self.mread(st, (z + 1) & 0xff)
            if not (isc(lo8) and isc(hi8)):
                raise Unsupported("indirect through symbolic pointer at %04x" % pc)
            base = lo8 | hi8 << 8
            if mode == "izx":
                alts = [(st, base, base, base, False)]
            elif isc(st.y):
                a = (base + st.y) & 0xffff
                alts = [(st, a, a, a, (a ^ base) & 0xff00 != 0)]
            elif base & 0xff == 0:
                a = simp(z3.BitVecVal(base, 16) + z3.ZeroExt(8, st.y))
                alts = [(st, a, base, base + 0xff, False)]
            else:
                raise Unsupported("izy unaligned symbolic")
        out = []
        for (s, addr, lo, hi, crossed) in alts:
            s.cyc = start + cyc + (1 if (cross and crossed) else 0)
            s.pc = nxt
            out.extend(self.exec(s, mn, mode, opd, addr, lo, hi, pc))
        return out

    def dummy_access(self, st, mn, un, a, start, lo=None, hi=None):
        """Extra bus read of indexed addressing; matters only in I/O space."""
        if isc(un) and 0xc000 <= un <= 0xc0ff and (un != a or mn in ("STA", "INC", "DEC", "ASL", "LSR", "ROL", "ROR")):
            st.cyc = start + 4
            self.io_read(st, un)
        elif lo is not None and not (hi < 0xc000 or lo > 0xc0ff):
            raise Unsupported("symbolic index in I/O space")

    def binop(self, st, mn, m):
        if mn in ("AND", "ORA", "EOR"):
            if isc(st.a) and isc(m):
                r = dict(AND=st.a & m, ORA=st.a | m, EOR=st.a ^ m)[mn]
            else:
                x, y = bv(st.a), bv(m)
                r = simp(dict(AND=x & y, ORA=x | y, EOR=x ^ y)[mn])
            st.a = r
            self.setnz(st, r)
            return
        if st.d is not False:
            raise Unsupported("decimal mode")
        if mn == "SBC":
            m = (m ^ 0xff) if isc(m) else simp(~m)
        if isc(st.a) and isc(m) and isinstance(st.c, bool):
            t = st.a + m + int(st.c)
            r = t & 0xff
            st.c = t > 0xff
            st.v = bool((~(st.a ^ m) & (st.a ^ r)) & 0x80)
        else:
            cb = z3.If(st.c, z3.BitVecVal(1, 9), z3.BitVecVal(0, 9)) if not isinstance(st.c, bool) else \
                z3.BitVecVal(int(st.c), 9)
            t = z3.ZeroExt(1, bv(st.a)) + z3.ZeroExt(1, bv(m)) + cb
            r = simp(z3.Extract(7, 0, t))
            st.c = simpb(z3.Extract(8, 8, t) == 1)
            st.v = simpb(z3.Extract(7, 7, (~(bv(st.a) ^ bv(m)) & (bv(st.a) ^ bv(r)))) == 1)
        st.a = r
        self.setnz(st, r)

    def compare(self, st, reg, m):
        if isc(reg) and isc(m):
            st.c = reg >= m
            self.setnz(st, (reg - m) & 0xff)
        else:
            st.c = simpb(z3.UGE(bv(reg), bv(m)))
            st.z = simpb(bv(reg) == bv(m))
            st.n = simpb(z3.Extract(7, 7, bv(reg) - bv(m)) == 1)

    def exec(self, st, mn, mode, opd, addr, lo, hi, pc):
        def operand():
            if mode == "imm":
                return opd[0]
            return self.read(st, addr, lo, hi)

        if mn in ("LDA", "LDX", "LDY"):
            v = operand()
            setattr(st, mn[2].lower(), v)
            self.setnz(st, v)
        elif mn in ("STA", "STX", "STY"):
            self.write(st, addr, lo, hi, getattr(st, mn[2].lower()))
        elif mn in ("ADC", "SBC", "AND", "ORA", "EOR"):
            self.binop(st, mn, operand())
        elif mn in ("CMP", "CPX", "CPY"):
            self.compare(st, dict(CMP=st.a, CPX=st.x, CPY=st.y)[mn], operand())
        elif mn == "BIT":
            m = operand()
            if isc(m):
                st.n, st.v = m >= 0x80, bool(m & 0x40)
            else:
                st.n = simpb(z3.Extract(7, 7, m) == 1)
                st.v = simpb(z3.Extract(6, 6, m) == 1)
            t = (m & st.a) if isc(m) and isc(st.a) else simp(bv(m) & bv(st.a))
            st.z = simpb(t == 0) if not isc(t) else t == 0
        elif mn in ("INC", "DEC"):
            m = operand()
            if not (hi < 0xc000 or lo > 0xc0ff):
                self.write(st, addr, lo, hi, m)     # RMW writes the old value back first
            r = ((m + (1 if mn == "INC" else -1)) & 0xff) if isc(m) else simp(m + (1 if mn == "INC" else 255))
            self.write(st, addr, lo, hi, r)
            self.setnz(st, r)
        elif mn in ("ASL", "LSR", "ROL", "ROR"):
            m = st.a if mode == "acc" else operand()
            cin = st.c
            x = bv(m)
            cb = z3.BitVecVal(int(cin), 8) if isinstance(cin, bool) else z3.If(cin, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if mn in ("ASL", "ROL"):
                st.c = simpb(z3.Extract(7, 7, x) == 1)
                r = x << 1
                if mn == "ROL":
                    r = r | cb
            else:
                st.c = simpb(z3.Extract(0, 0, x) == 1)
                r = z3.LShR(x, 1)
                if mn == "ROR":
                    r = r | (cb << 7)
            r = simp(r)
            if mode == "acc":
                st.a = r
            else:
                self.write(st, addr, lo, hi, r)
            self.setnz(st, r)
        elif mn in ("INX", "INY", "DEX", "DEY"):
            k = mn[2].lower()
            r = getattr(st, k)
            dlt = 1 if mn[:2] == "IN" else 255
            r = (r + dlt) & 0xff if isc(r) else simp(r + dlt)
            setattr(st, k, r)
            self.setnz(st, r)
        elif mn in ("TAX", "TAY", "TXA", "TYA", "TSX"):
            src = dict(A=st.a, X=st.x, Y=st.y, S=st.sp)[mn[1]]
            setattr(st, mn[2].lower(), src)
            self.setnz(st, src)
        elif mn == "TXS":
            if not isc(st.x):
                raise Unsupported("TXS symbolic")
            st.sp = st.x
        elif mn in ("CLC", "SEC"):
            st.c = mn == "SEC"
        elif mn in ("CLD", "SED"):
            st.d = mn == "SED"
        elif mn in ("CLI", "SEI"):
            st.i = mn == "SEI"
        elif mn == "CLV":
            st.v = False
        elif mn == "NOP":
            pass
        elif mn in ("PHA", "PLA", "PHP", "PLP"):
            if mn == "PHA":
                self.mwrite(st, 0x100 + st.sp, 0x100 + st.sp, 0x100 + st.sp, st.a)
                st.sp = (st.sp - 1) & 0xff
            elif mn == "PLA":
                st.sp = (st.sp + 1) & 0xff
                st.a = self.mread(st, 0x100 + st.sp)
                self.setnz(st, st.a)
            else:
                raise Unsupported(mn)
        elif mn in ("BCC", "BCS", "BEQ", "BMI", "BNE", "BPL", "BVC", "BVS"):
            f = dict(C=st.c, E=st.z, M=st.n, N=st.z, P=st.n, V=st.v)[mn[1]]
            if mn in ("BCC", "BCS"):
                f = st.c
            want = mn in ("BCS", "BEQ", "BMI", "BVS")
            off = opd[0] - 256 if opd[0] >= 128 else opd[0]
            nxt = st.pc
            tgt = (nxt + off) & 0xffff
            tc = 2 if (tgt ^ nxt) & 0xff00 else 1
            if isinstance(f, bool):
                if f == want:
                    st.pc = tgt
                    st.cyc += tc
                return [st]
            s1, s2 = st, st.fork()
            s1.pc_cond.append(f if want else z3.Not(f))
            s2.pc_cond.append(z3.Not(f) if want else f)
            out = []
            if self.feasible(s1.pc_cond):
                s1.pc = tgt
                s1.cyc += tc
                out.append(s1)
            if self.feasible(s2.pc_cond):
                out.append(s2)
            return out
        elif mn == "JSR":
            t = opd[0] | opd[1] << 8
            if self.on_jsr(st, t):
                return [st]
            ret = (st.pc - 1) & 0xffff
            for b in (ret >> 8, ret & 0xff):
                self.mwrite(st, 0x100 + st.sp, 0x100 + st.sp, 0x100 + st.sp, b)
                st.sp = (st.sp - 1) & 0xff
            st.pc = t
        elif mn == "RTS":
            st.sp = (st.sp + 1) & 0xff
            l = self.mread(st, 0x100 + st.sp)
            st.sp = (st.sp + 1) & 0xff
            h = self.mread(st, 0x100 + st.sp)
            if not (isc(l) and isc(h)):
                raise Unsupported("RTS to symbolic address")
            st.pc = ((l | h << 8) + 1) & 0xffff
        elif mn == "BRK":
            st.status = "brk"
        else:
            raise Unsupported("%s at %04x" % (mn, pc))
        return [st]
