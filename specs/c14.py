"""C14: decoded samples -> speaker duty cycles, and the automatic normalisation factor."""
from specs.common import *
from specs import movie


class Buffers(object):
    """Decoder output: any number of buffers."""

    def __init__(self, src):
        self.src = src

    def symiter(self):
        return self

    def __iter__(self):
        return self

    def __next__(self):
        return self.symnext()

    def advance(self, act):
        try:
            act.value = self.symnext()
        except StopIteration:
            return False
        return True

    def symnext(self):
        e = V.ENG
        e.symdec += 1
        g = self.src.g
        e.prove("levels: one level for every sample of a buffer", V.eq(g.i, g.n))
        # nothing of the finished buffer matters from here on
        g.i = g.n = 0
        g.box.samples = g.box.mono = None
        if not bool(e.fresh_bool("more_audio")):
            g.ended = True
            raise StopIteration
        g.box.raw = Raw(self.src)
        return g.box.raw

    def __walk__(self, path, slots, sig, node):
        node(path + ("g",), self.src.g, None)


class Raw(object):
    """Bytes of one buffer, opaque: only numpy.frombuffer looks inside."""

    def __init__(self, src):
        self.src = src

    def __symbytes__(self):
        return self

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0


class Source(object):
    def __init__(self, e, g, channels):
        self.g, self.channels = g, channels
        self.samplerate = e.fresh_int("samplerate", 1, None)
        self.duration = 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read_data(self, *a, **kw):
        return Buffers(self)


class Box(object):
    """Ghost arrays of the current buffer: constant while it is consumed, reset before the next one is read."""
    samples = mono = pcm = raw = None

    def __walk__(self, path, slots, sig, node):
        pass


class Ghost(EN.Ghost):
    def __init__(self):
        self.i = 0           # levels produced for the current buffer
        self.n = 0           # samples of the current buffer
        self.box = Box()     # decoded samples of the current buffer
        self.ended = False


def setup(prog, e, g, channels):
    src = Source(e, g, channels)
    st = prog.stubs

    def frombuffer(buf, dtype=None, **kw):
        m = e.fresh_int("buffer_frames", 0, 1 << 20, bv=False)
        n = m * channels
        e.prove("decode: 16-bit signed samples", N.dtname(dtype) == "int16")
        if isinstance(buf, Raw):
            e.prove("decode: the buffer just read", buf is g.box.raw)
        g.box.pcm = N.fresh_array("pcm", (n,), N.dtname(dtype))
        return g.box.pcm.copy()

    def to_mono(data):
        e.prove("decode: channels x samples handed to to_mono", data.ndim == 2 and V.eq(data.shape[0], channels))
        k = e.fresh_int("frame", 0, 1 << 20, bv=False)
        if bool(k < data.shape[1]):
            for c in range(channels):
                e.prove("decode: samples of one channel are every n-th sample of the buffer",
                        V.eq(N.raw(data[c, k]), N.raw(g.box.pcm.at(k * channels + c))))
        g.box.mono = N.fresh_array("mono", (data.shape[1],), "float32")
        return g.box.mono

    def resample(a, *args, **kw):
        o = kw.get("orig_sr", args[0] if args else None)
        t = kw.get("target_sr", args[1] if len(args) > 1 else None)
        e.prove("decode: resampled from the file's rate to the movie's rate", V.land(
            V.eq(o, src.samplerate), V.eq(t, prog.audio.sample_rate)))
        j = e.fresh_int("mono_index", 0, 1 << 20, bv=False)
        mono = g.box.mono
        e.prove("decode: the mono signal is resampled", a.ndim == 1 and V.land(
            V.eq(a.shape[0], mono.shape[0]), V.implies(j < mono.shape[0], V.eq(N.raw(a.at(j)), N.raw(mono.at(j))))))
        n = e.fresh_int("samples", 0, 1 << 20, bv=False)
        g.n, g.i = n, 0
        g.box.samples = N.fresh_array("samples", (n,), "float32")
        return g.box.samples.copy()
    st["numpy"].frombuffer = frombuffer
    lib = st["librosa"]
    lib.to_mono = lib.core.to_mono = to_mono
    lib.resample = lib.core.resample = resample
    st["audioread"].audio_open = lambda *a, **kw: src
    return src


def spec_level(x, norm):
    """16 * normalised sample, truncated and clipped."""
    t = V.realterm(x) * V.realterm(norm) / 1024
    v = V.real_trunc(V.SymReal(t))
    return V.ite(v < -15, -15, V.ite(v > 16, 16, v))


def h_stream(prog, audio, channels):
    def f():
        e = V.ENG
        norm = e.fresh_real("normalization")
        e.assume(V.boolterm(norm > 0))
        g = Ghost()
        e.ghost_roots["audio"] = g
        setup(prog, e, g, channels)
        e.user_inv.append(lambda: [("levels of the current buffer", V.land(g.i >= 0, g.i <= g.n))])
        a = noexc(e, "Audio", audio.Audio, "in.mp4", bitrate=e.fresh_int("bitrate", 1, None), normalization=norm)
        prog.audio = a
        e.prove("an explicit normalisation factor is used unchanged", V.eq(a.normalization, norm))

        def consume():
            for x in a.audio_stream():
                i = g.i
                e.prove("levels: no more levels than samples", i < g.n)
                v = V.as_int(N.raw(x))
                x = N.raw(g.box.samples.at(i))
                # integer range: the scaled sample fits a 64-bit integer
                s = V.SymReal(V.realterm(x) * V.realterm(norm) / 1024)
                e.assume(V.boolterm(V.land(s < 2.0 ** 62, s > -2.0 ** 62)))
                want = spec_level(x, norm)
                e.prove("levels: 16 * sample * normalisation / 16384, truncated, clipped to -15..16", V.eq(v, want))
                g.i = i + 1
        noexc(e, "audio_stream", consume)
        e.prove("levels: one level for every sample of a buffer", V.eq(g.i, g.n))
        e.prove("levels: all buffers are used", g.ended)
        e.cover("stream ends")
    return f


def h_norm(prog, audio, channels):
    """Automatic normalisation: finite and positive whatever the percentiles are."""
    def f():
        e = V.ENG
        g = Ghost()
        e.ghost_roots["audio"] = g
        src = setup(prog, e, g, channels)
        src.read_data = lambda *a, **kw: [b"\0\0" * 8, b"\1\0" * 8]
        p = [e.fresh_real("p_low"), e.fresh_real("p_high")]
        e.assume(V.boolterm(p[0] <= p[1]))

        def percentile(a, q, *x, **kw):
            if isinstance(q, (list, tuple)):
                return N.NArr.of([p[0] if y < 50 else p[1] for y in q], (len(q),), "float64")
            return N.mk("float64", p[0] if q < 50 else p[1])
        prog.stubs["numpy"].percentile = percentile
        # an attribute read while the constructor still runs
        prog.audio = type("A", (), {"sample_rate": None})()
        b = e.fresh_int("bitrate", 1, None)
        prog.audio.sample_rate = b
        a = noexc(e, "Audio", audio.Audio, "in.mp4", bitrate=b)
        n = N.raw(a.normalization)
        e.prove("normalisation factor is positive and finite",
                n > 0 if isinstance(n, V.Sym) else 0 < n < float("inf"))
        m = V.ite(abs(p[0]) > abs(p[1]), abs(p[0]), abs(p[1]))
        e.prove("normalisation factor scales the larger percentile to full scale",
                V.implies(m > 0, V.eq(n * m, 16384.)))
    return f


def h_monotone():
    """Lemma over the level contract: silence gives 34, louder positive samples never give shorter cycles."""
    e = V.ENG
    x, y, norm = e.fresh_real("x"), e.fresh_real("y"), e.fresh_real("normalization")
    e.assume(V.boolterm(norm > 0))
    lx, ly = spec_level(x, norm), spec_level(y, norm)
    e.prove("lemma: duty cycle is an even number from 4 to 66", V.land(34 + 2 * lx >= 4, 34 + 2 * lx <= 66))
    e.prove("lemma: silence has duty cycle 34", V.eq(34 + 2 * spec_level(V.SymReal(z3.RealVal(0)), norm), 34))
    # scaled samples: multiplication by a positive factor keeps the order
    u, w = e.fresh_real("u"), e.fresh_real("w")
    e.assume(V.boolterm(u <= w))
    one = V.SymReal(z3.RealVal(1))
    e.prove("lemma: louder scaled samples never get shorter duty cycles", spec_level(u, one) <= spec_level(w, one))
    e.prove("lemma: positive factors keep the order of samples", V.implies(x <= y, x * norm <= y * norm))


def body(chk):
    def program():
        p = env.transcoder()
        return p, p.load("audio")

    def stream(ch):
        def f(c):
            p, a = program()
            p.engine(c, "audio_stream, %d channels: " % ch).run(h_stream(p, a, ch))
            c.under_contract("audio.Audio.__init__", "audio.Audio.audio_stream", "audio.Audio._decode")
        return f

    def norm(c):
        p, a = program()
        p.engine(c, "normalization: ").run(h_norm(p, a, 2))
        c.under_contract("audio.Audio._normalization")

    def mono(c):
        p, a = program()
        p.engine(c, "monotone: ").run(h_monotone)
    par(chk, [("stream1", stream(1)), ("stream2", stream(2)), ("norm", norm), ("monotone", mono)] +
        movie.tasks("C14", False, True))
    movie.assumptions(chk)
    chk.trust("contracts of numpy.percentile (ordered values), librosa.to_mono/resample (any samples, any count) and "
              "audioread (any number of buffers)")
    chk.assume("sample * normalisation / 1024 fits a signed 64-bit integer")
    chk.assume("samples and factors are mathematical reals (float32 rounding of the products ignored)")


def run(tier):
    return execute("C14", tier, body, replay("movie_fuzz.py", "C14"))
