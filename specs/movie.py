"""Modular verification of the movie encoder (transcoder/movie.py): the stream writer against an arbitrary
sequence of commands, and the multiplexer against arbitrary audio, frames and changes of the selected bank."""
import inspect
from specs.common import *
from pyvc.instrument import RList


def stub_audio(e_rate):
    class Audio(object):
        def __init__(self, filename, bitrate=14700, normalization=None):
            self.filename, self.bitrate, self.norm = filename, bitrate, normalization
            self.sample_rate = e_rate()

        def audio_stream(self):
            return self.source
    return env.mod("audio", Audio=Audio)


def stub_frames(e_rate):
    class FileFrameGrabber(object):
        def __init__(self, filename, mode, palette):
            self.filename, self.mode, self.palette = filename, mode, palette
            self.input_frame_rate = e_rate()

        def frames(self):
            return self.source
    return env.mod("frame_grabber", FileFrameGrabber=FileFrameGrabber, FrameGrabber=object)


def program(real_video):
    rates = {}

    def rate(name):
        def f():
            r = V.ENG.fresh_real(name)
            V.ENG.assume(V.boolterm(r > 0))
            return r
        return f
    kw = dict(audio=stub_audio(rate("sample_rate")), frame_grabber=stub_frames(rate("frame_rate")))
    if not real_video:
        class Video(object):
            def __init__(self, *a, **kw):
                self.out_of_work = {}
        kw["video"] = env.mod("video", Video=Video)
    prog = env.transcoder(overrides={"builtins": {"open": env.repo_open}}, **kw)
    prog.movie, prog.opcodes = prog.load("movie"), prog.load("opcodes")
    prog.modes = prog.load("video_mode").VideoMode
    prog.pals = prog.load("palette").Palette
    if real_video:
        prog.screen, prog.video = prog.load("screen"), prog.load("video")
    return prog


# ------------------------------------------------------------------------------------------ stream writer
class AnyOps(object):
    """Arbitrary command sequence: the header, then any number of audio/video commands.

    Stands for Movie.encode under the contract proved by encode_task below."""

    def __init__(self, prog, m, mode, g, groups):
        self.prog, self.m, self.mode, self.g, self.groups = prog, m, mode, g, groups

    def symiter(self):
        return self

    def __iter__(self):
        return self

    def __next__(self):
        return self.symnext()

    def advance(self, act):
        try:
            act.value = self.symnext()
        except StopIteration:
            return False
        return True

    def symnext(self):
        e, g = V.ENG, self.g
        e.symdec += 1
        e.prove("bank: the encoder sees the bank selected in the player", V.eq(self.m.aux_memory_bank, g.bank))
        e.prove("stream: every command taken is written completely before the next is taken",
                g.pending is None and g.k == 0)
        if not g.header:
            g.header = True
            op = self.prog.opcodes.Header(mode=self.mode)
            g.pending = op
            return op
        if g.exhausted or not bool(e.fresh_bool("more")):
            g.exhausted = True
            raise StopIteration
        cls = self.groups[e.choose(len(self.groups), "cls")]
        op = cls(e.fresh_int("content", 0, 255), RList([e.fresh_int("off%d" % i, 0, 255) for i in range(4)]))
        s = e.fresh_int("START", 1, 0xffff)
        ops = self.prog.opcodes
        e.assume(V.boolterm(V.land(s != ops.Ack._START, s != ops.Terminate._START)))
        object.__setattr__(op, "_START", s)
        g.pending = op
        return op

    def __walk__(self, path, slots, sig, node):
        node(path + ("g",), self.g, None)


class Stream(EN.Ghost):
    """Monitor of the byte stream."""

    def __init__(self):
        self.pos = 0            # bytes so far
        self.q = 0              # complete blocks so far
        self.r = 0              # bytes of the current block so far: pos = 2048 q + r
        self.c = 0              # complete commands in the current block
        self.k = 0              # bytes of the current command so far
        self.kind = "start"
        self.hi = 0
        self.start = 0          # position of the current command, and within its block
        self.rs = 0
        self.header = False     # header taken from the encoder
        self.exhausted = False
        self.pending = None     # command taken and not yet written
        self.bank = False       # bank selected in the player
        self.ended = False
        self.te = 0             # position after the terminate command
        self.limit = None

    def done(self):
        self.k, self.kind, self.pending = 0, "cmd", None
        self.hi = self.start = self.rs = 0

    def byte(self, e, ops, dhgr, b):
        p = self.pos
        r = self.r
        self.pos = p + 1
        full = V.eq(r + 1, 2048)
        self.r = V.ite(full, 0, r + 1)
        self.q = V.ite(full, self.q + 1, self.q)
        self.c = V.ite(full, 0, self.c)
        if not isinstance(b, (int, V.SymInt)):
            e.fail("bytes: integers", repr(b))
        if self.ended:
            e.prove("last block: zero bytes after the terminate command", V.eq(b, 0))
            e.prove("last block: the stream ends at the block boundary", V.neg(V.eq(r, 0)))
            return
        if self.kind == "start":
            self.k += 1
            if self.k == 7:
                self.done()
                self.c = self.c + 1
            return
        if self.k == 0:
            self.hi, self.start, self.rs = b, p, r
            self.k = 1
            return
        if self.k == 1:
            addr = self.hi * 256 + b
            self.k = 2
            if bool(V.eq(addr, ops.Terminate._START)):
                e.prove("limit: encoding stops early only at or after the limit", self.exhausted or (
                    self.limit is not None and self.start >= self.limit))
                e.prove("last block: terminate lies within one block", self.rs <= 2046)
                self.ended, self.te, self.k = True, self.pos, 0
                return
            if bool(V.eq(addr, ops.Ack._START)):
                e.prove("blocks: ACK occupies the last four bytes of a block", V.eq(self.rs, 2044))
                self.kind = "ack"
                return
            e.prove("stream: only commands taken from the encoder are written", self.pending is not None)
            if self.pending is not None:
                e.prove("bytes: command address as registered", V.eq(addr, self.pending._START))
            e.prove("blocks: no command reaches into the last four bytes of a block", self.rs + 7 <= 2044)
            if self.limit is not None:
                e.prove("limit: no command starts at or after the limit", self.start < self.limit)
            self.kind = "tick"
            return
        if self.kind == "ack":
            if self.k == 2:
                want = (not self.bank) if dhgr else False
                e.prove("bank: ACK selects the %s bank" % ("opposite" if dhgr else "main"),
                        V.eq(b, V.ite(want, 0x55, 0x54)))
                self.bank = want
                self.k = 3
            else:
                self.done()
                e.prove("blocks: ACK ends the block", V.eq(self.r, 0))
            return
        self.k += 1
        op = self.pending
        want = op.content if self.k == 3 else list(op.offsets)[self.k - 4]
        e.prove("bytes: operand bytes are the command's", V.eq(b, want))
        if self.k == 7:
            self.done()
            e.prove("blocks: every block before the last ends with ACK", V.neg(V.eq(self.r, 0)))
            self.c = self.c + 1

    def end(self, e):
        e.prove("last block: the stream is terminated", self.ended)
        e.prove("blocks: whole number of blocks", V.eq(self.r, 0))
        e.prove("last block: it is the block of the terminate command", V.land(self.pos - self.te < 2048,
                                                                              self.pos >= self.te))
        e.prove("stream: every command taken is written completely", (
            self.pending is None or self.limit is not None) and self.k == 0)
        if self.limit is None:
            e.prove("limit: without a limit everything is encoded", self.exhausted)


def tick_groups(prog):
    """One representative of every distinct implementation among the 1024 command classes."""
    out = {}
    for cls in prog.opcodes.TICK_OPCODES.values():
        k = tuple(getattr(cls, n) for n in ("emit_command", "emit_data", "apply", "__init__"))
        out.setdefault(k, cls)
    return list(out.values())


def h_stream(prog, dhgr, limited):
    def f():
        e = V.ENG
        mode = prog.modes.DHGR if dhgr else prog.modes.HGR
        g = Stream()
        if limited:
            lim = e.fresh_real("max_bytes")
            e.assume(V.boolterm(lim > 0))
            g.limit = lim
        else:
            lim = [0.0, None, 0][e.choose(3, "nolimit")]
        e.ghost_roots["stream"] = g
        m = prog.movie.Movie("in.mp4", max_bytes_out=lim, video_mode=mode)
        e.prove("bank: starts with main memory", V.eq(m.aux_memory_bank, False))
        ops = AnyOps(prog, m, mode, g, tick_groups(prog))

        def inv():
            out = [("position is block number and offset", V.land(V.eq(g.pos, 2048 * g.q + g.r), g.q >= 0, g.r >= 0,
                                                                  g.r < 2048))]
            if not (g.ended or g.k or g.kind == "start"):
                out.append(("commands start at multiples of 7 within a block",
                            V.land(V.eq(g.r, 7 * g.c), g.c >= 0, g.c <= 291)))
            return out
        e.user_inv.append(inv)

        def consume():
            for b in m.emit_stream(ops):
                g.byte(e, prog.opcodes, dhgr, b)
        noexc(e, "emit_stream", consume)
        g.end(e)
        e.cover("stream ends")
    return f


def stream_task(chk, dhgr, limited):
    prog = program(False)
    name = "%s, %s: " % ("DHGR" if dhgr else "HGR", "limit" if limited else "no limit")
    prog.engine(chk, "emit_stream " + name).run(h_stream(prog, dhgr, limited))
    for f in ("movie.Movie.__init__", "movie.Movie.emit_stream", "movie.Movie._emit_bytes", "movie.Movie.done",
              "machine.Machine.emit", "opcodes.Opcode.emit_command", "opcodes.Ack.emit_data",
              "opcodes.BaseTick.emit_data", "opcodes.Header.emit_command", "opcodes.Header.emit_data"):
        chk.under_contract(f)


# ------------------------------------------------------------------------------------------ multiplexer
class Frame(EN.Ghost):
    def __init__(self, idx, aux):
        self.idx, self.aux = idx, aux


class AnyAudio(object):
    """Audio stream of unknown length with levels -15..16."""

    def __init__(self, g):
        self.g = g

    def symiter(self):
        return self

    def __iter__(self):
        return self

    def __next__(self):
        return self.symnext()

    def advance(self, act):
        try:
            act.value = self.symnext()
        except StopIteration:
            return False
        return True

    def symnext(self):
        e, g = V.ENG, self.g
        e.symdec += 1
        e.prove("one command per sample: the previous sample's command was produced", V.eq(g.out, g.k))
        if g.aud_end or not bool(e.fresh_bool("audio_left")):
            g.aud_end = True
            raise StopIteration
        g.k = g.k + 1
        g.au = e.fresh_int("au", -15, 16)
        g.served = False
        return N.mk("int64", g.au)

    def __walk__(self, path, slots, sig, node):
        node(path + ("g",), self.g, None)


class AnyFrames(object):
    def __init__(self, g, dhgr):
        self.g, self.dhgr = g, dhgr

    def symiter(self):
        return self

    def __iter__(self):
        return self

    def __next__(self):
        return self.symnext()

    def advance(self, act):
        try:
            act.value = self.symnext()
        except StopIteration:
            return False
        return True

    def symnext(self):
        e, g = V.ENG, self.g
        e.symdec += 1
        # a frame is requested when its presentation time has come, and not before
        e.prove("frame clock: frame taken up at or after its presentation time", g.tpf * g.f <= g.k)
        e.prove("frame clock: at most one frame per sample", V.neg(V.eq(g.fat, g.k)))
        if g.frm_end or not bool(e.fresh_bool("frames_left")):
            g.frm_end = True
            raise StopIteration
        j = g.f
        g.f = j + 1
        g.fat = g.k
        g.cur = V.ite(V.eq(j % g.n, 0), j, g.cur)
        return Frame(j, False), (Frame(j, True) if self.dhgr else None)

    def __walk__(self, path, slots, sig, node):
        node(path + ("g",), self.g, None)


class Target(EN.Ghost):
    """Stands for the Bitmap of a target frame."""

    def __init__(self, main, aux, palette):
        self.main_memory, self.aux_memory, self.palette = main, aux, palette


def target_class(real):
    sg = inspect.signature(real.__init__)

    def make(*a, **kw):
        b = sg.bind(None, *a, **kw).arguments
        t = Target(b.get("main_memory"), b.get("aux_memory"), b.get("palette"))
        t.cls = real.__name__
        return t
    return make


class OpSeq(EN.Ghost):
    """Arbitrary change sequence for one target and bank (contract of Video.encode_frame, see C05)."""

    def __init__(self, g, target, is_aux):
        self.g, self.target, self.is_aux = g, target, is_aux

    def symnext(self):
        e, g = V.ENG, self.g
        e.prove("one change per command", not g.served)
        g.served = True
        page = e.fresh_int("page", 32, 63)
        content = N.mk("uint8", e.fresh_int("content", 0, 255))
        offs = RList([e.fresh_int("o%d" % i, 0, 255) for i in range(4)])
        g.last = (self.target, self.is_aux, page, content, tuple(offs))
        return page, content, offs

    def __next__(self):
        return self.symnext()


class TickTable(object):
    """Contract of opcodes.TICK_OPCODES, proved by C16: key (tick, page) -> the class of that command."""

    def __init__(self, base):
        self.base = base

    def __getitem__(self, k):
        e = V.ENG
        tick, page = k
        tick, page = V.as_int(tick), V.as_int(page)
        e.prove("duty cycle: an even number between 4 and 66", V.land(tick >= 4, tick <= 66, V.eq(tick % 2, 0)))
        e.prove("page: between $20 and $3F", V.land(page >= 32, page <= 63))

        def make(*a, **kw):
            op = self.base(*a, **kw)
            op.tick, op.page = tick, page
            return op
        return make

    def get(self, k, d=None):
        return self[k]


class Mux(EN.Ghost):
    def __init__(self):
        self.k = 0             # samples taken
        self.out = 0           # commands produced
        self.f = 0             # frames taken
        self.fat = 0           # sample at which the last frame was taken
        self.au = 0
        self.cur = -1          # frame that should be the current target
        self.aud_end = self.frm_end = False
        self.served = False
        self.last = None
        self.tpf = None
        self.n = 1
        self.header = False


def h_encode(prog, dhgr, what):
    video, screen, ops = prog.video, prog.screen, prog.opcodes
    real = {n: getattr(screen, n) for n in ("DHGRBitmap", "HGRBitmap")}
    base = type("AnyTick", (ops.BaseTick,), {})

    def f():
        e = V.ENG
        for n, c in real.items():
            setattr(screen, n, target_class(c) if not hasattr(c, "__is_target__") else c)
        mode = prog.modes.DHGR if dhgr else prog.modes.HGR
        g = Mux()
        e.ghost_roots["mux"] = g
        if what == "skip":
            n = e.fresh_int("every_n", 1, None)
        else:
            n = 1
        g.n = n
        m = prog.movie.Movie("in.mp4", every_n_video_frames=n, video_mode=mode)
        g.tpf = m.audio.sample_rate / m.frame_grabber.input_frame_rate
        # more audio samples than video frames
        e.assume(V.boolterm(g.tpf > 1))
        m.audio.source = AnyAudio(g)
        m.frame_grabber.source = AnyFrames(g, dhgr)
        ops.TICK_OPCODES = prog.movie.opcodes.TICK_OPCODES = TickTable(base)
        real_encode = inspect.signature(prog.real_encode_frame)

        def encode_frame(self, *a, **kw):
            b = real_encode.bind(self, *a, **kw).arguments
            return OpSeq(g, b["target"], b["is_aux"])
        video.Video.encode_frame = encode_frame

        def inv():
            if not g.header:
                return []
            return [("the number of samples is not negative", g.k >= 0),
                    ("frames up to now were taken, later ones not", V.implies(g.k >= 1, V.land(
                        g.f >= 1, g.tpf * (g.f - 1) <= g.k, g.tpf * g.f > g.k))),
                    ("no frame before the first sample", V.implies(V.eq(g.k, 0), V.eq(g.f, 0))),
                    ("last frame taken at an earlier sample", V.land(g.fat <= g.k, g.fat >= 0)),
                    ("the first frame is a target", V.implies(g.f >= 1, g.cur >= 0))]
        e.user_inv.append(inv)

        def consume():
            for op in m.encode():
                if not g.header:
                    g.header = True
                    e.prove("header comes first and names the video mode", isinstance(op, ops.Header) and
                            op.video_mode == mode)
                else:
                    step(e, g, m, op)
                if dhgr:
                    e.setattr(m, "aux_memory_bank", e.fresh_bool("bank"))
        e.prove("bank: starts with main memory", V.eq(m.aux_memory_bank, False))
        noexc(e, "encode", consume)
        e.prove("header comes first and names the video mode", g.header)
        e.prove("encoding ends only when audio or video is exhausted", g.aud_end or g.frm_end)
        e.cover("encoding ends")

    def step(e, g, m, op):
        g.out = g.out + 1
        ok = type(op) is base
        e.prove("one command per sample: an audio/video command", ok)
        e.prove("one command per sample", V.eq(g.out, g.k))
        e.prove("encoding ends when the frames are exhausted", not g.frm_end)
        e.prove("duty cycle: 34 + 2 * level", V.eq(op.tick, 34 + 2 * g.au))
        e.prove("one change per command", g.served and g.last is not None)
        target, is_aux, page, content, offs = g.last
        e.prove("command carries the change unaltered", V.land(
            V.eq(op.page, page), V.eq(V.as_int(N.raw(op.content)), V.as_int(N.raw(content))), len(op.offsets) == 4,
            *[V.eq(V.as_int(x), y) for x, y in zip(list(op.offsets), offs)]))
        e.prove("bank: content is for the bank selected in the player", V.eq(is_aux, m.aux_memory_bank))
        e.prove("frame clock: every frame due has been taken up", V.land(
            g.f >= 1, g.tpf * (g.f - 1) <= g.k, g.tpf * g.f > g.k))
        e.prove("targets: frames 0, n, 2n, ...", V.eq(target.main_memory.idx, g.cur))
        e.prove("targets: main picture is the frame's main memory", not target.main_memory.aux)
        e.prove("targets: picture of the right mode", target.cls == ("DHGRBitmap" if dhgr else "HGRBitmap"))
        e.prove("targets: palette of the movie", target.palette is m.palette)
        if dhgr:
            e.prove("targets: auxiliary picture of the same frame", target.aux_memory is not None and
                    V.land(V.eq(target.aux_memory.idx, g.cur), target.aux_memory.aux))
        g.served = False
        g.last = None
    return f


def encode_task(chk, dhgr, what):
    prog = program(True)
    prog.real_encode_frame = prog.video.Video.encode_frame
    prog.engine(chk, "encode %s%s: " % ("DHGR" if dhgr else "HGR", ", frame skipping" if what == "skip" else "")
                ).run(h_encode(prog, dhgr, what))
    for f in ("movie.Movie.__init__", "movie.Movie.encode", "video.Video.__init__", "video.Video.tick",
              "opcodes.Header.__init__", "opcodes.BaseTick.__init__"):
        chk.under_contract(f)


def assumptions(chk):
    python_trust(chk, False)
    chk.assume("floating-point rates and limits are treated as mathematical reals (rounding ignored)")
    chk.assume("the audio sample rate exceeds the video frame rate")


GROUPS = dict(C01=("blocks:", "last block:", "stream:"), C02=("bytes:",), C03=("bank:",), C26=("limit:",),
              C13=("one command per sample", "frame clock:", "targets:", "encoding ends", "header comes first",
                   "one change per command", "page:", "command carries"),
              C14=("duty cycle:",))


def tags(prop):
    """Keep the obligations of one property; those that carry no group (exceptions, loop invariants) stay."""
    others = tuple(t for p, ts in GROUPS.items() if p != prop for t in ts)

    def keep(name):
        parts = name.split(": ", 1)
        return not any(p.startswith(others) for p in parts[1:])
    return keep


def tasks(prop, streams=True, encodes=True):
    out = []

    def st(d, l):
        def f(c):
            c.keep = tags(prop)
            stream_task(c, d, l)
        return f

    def en(d, w):
        def f(c):
            c.keep = tags(prop)
            encode_task(c, d, w)
        return f
    if streams:
        out += [("stream%d%d" % (d, l), st(d, l)) for d in (1, 0) for l in (1, 0)]
    if encodes:
        out += [("encode%d%s" % (d, w), en(d, w)) for d in (1, 0) for w in ("", "skip")]
    return out
