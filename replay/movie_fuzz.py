"""Falsifier for the movie encoder (C01, C03, C13, C14, C26): runs the real Movie.encode and emit_stream on
scripted audio and frames, decodes the byte stream and compares it with the history that must have produced it."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

PROP = sys.argv[1]
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


class FakeAudio(object):
    rate = 1.0
    levels = ()

    def __init__(self, filename, bitrate=14700, normalization=None):
        self.sample_rate = float(FakeAudio.rate)

    def audio_stream(self):
        for a in FakeAudio.levels:
            yield a


class Frame(object):
    def __init__(self, idx, aux):
        self.idx, self.aux = idx, aux


class FakeGrabber(object):
    rate = 1.0
    count = 0
    dhgr = True

    def __init__(self, filename, mode, palette):
        self.input_frame_rate = FakeGrabber.rate

    def frames(self):
        for k in range(FakeGrabber.count):
            yield Frame(k, False), Frame(k, True) if FakeGrabber.dhgr else None


stub("audio", Audio=FakeAudio)
stub("frame_grabber", FileFrameGrabber=FakeGrabber, FrameGrabber=object)

import inspect
import io
import contextlib
import movie
import opcodes
import screen
import video
import video_mode
import palette


class Target(object):
    def __init__(self, main, aux, pal):
        self.main_memory, self.aux_memory, self.palette = main, aux, pal


def target_class(real):
    sg = inspect.signature(real.__init__)

    def make(*a, **kw):
        b = sg.bind(None, *a, **kw).arguments
        t = Target(b.get("main_memory"), b.get("aux_memory"), b.get("palette"))
        t.cls = real.__name__
        return t
    return make


REAL = screen.DHGRBitmap, screen.HGRBitmap
screen.DHGRBitmap, screen.HGRBitmap = map(target_class, REAL)
SEQS = []
SERVED = []
real_sig = inspect.signature(video.Video.encode_frame)


def encode_frame(self, *a, **kw):
    b = real_sig.bind(self, *a, **kw).arguments
    n = len(SEQS)
    SEQS.append((b["target"], b["is_aux"]))
    k = 0
    while True:
        k += 1
        ch = (32 + (n * 7 + k) % 32, (n + k) & 0x7f, [(k + j * 11) & 0xff for j in range(4)])
        SERVED.append((n, ch))
        yield ch[0], ch[1], list(ch[2])


video.Video.encode_frame = encode_frame
ADDR = {}
for _k, _c in opcodes.TICK_OPCODES.items():
    ADDR[_c._START] = _k


def scenario(dhgr, levels, arate, frate, frames, every, limit):
    del SEQS[:]
    del SERVED[:]
    FakeAudio.rate, FakeAudio.levels = arate, levels
    FakeGrabber.rate, FakeGrabber.count, FakeGrabber.dhgr = frate, frames, dhgr
    inp = dict(mode="DHGR" if dhgr else "HGR", samples=len(levels), audio_rate=arate, frame_rate=frate,
               frames=frames, every_n=every, limit=limit, first_levels=list(levels[:8]))

    def bad(prop, what, **kw):
        if prop == PROP:
            kw.update(inp)
            fail(what, **kw)
    mode = video_mode.VideoMode.DHGR if dhgr else video_mode.VideoMode.HGR
    m = movie.Movie("in.mp4", every_n_video_frames=every, max_bytes_out=limit, video_mode=mode)
    with contextlib.redirect_stdout(io.StringIO()):
        data = list(m.emit_stream(m.encode()))
    if any(not isinstance(b, int) and not hasattr(b, "__index__") or not 0 <= b <= 255 for b in data):
        bad("C01", "stream element that is no byte")
        return
    data = [int(b) for b in data]
    if len(data) % 2048:
        bad("C01", "stream is not a whole number of blocks", length=len(data))
    pos, bank, n, ended = 7, False, 0, None
    cmds = []
    while pos < len(data):
        if len(data) - pos < 2:
            bad("C01", "stream ends within a command", position=pos)
            return
        addr = data[pos] * 256 + data[pos + 1]
        if addr == opcodes.Terminate._START:
            ended = pos
            break
        if addr == opcodes.Ack._START:
            if pos % 2048 != 2044:
                bad("C01", "ACK at position %d of its block" % (pos % 2048), position=pos)
                return
            want = (not bank) if dhgr else False
            if data[pos + 2:pos + 3] != [0x55 if want else 0x54]:
                bad("C03", "ACK at %d selects $C0%02X while %s memory was selected" % (
                    pos, data[pos + 2], "aux" if bank else "main"), position=pos)
                return
            bank = want
            pos += 4
            continue
        if addr not in ADDR:
            bad("C01", "unknown command address %04x at %d" % (addr, pos), position=pos)
            bad("C14", "unknown command address %04x at %d" % (addr, pos), position=pos)
            return
        if pos % 2048 + 7 > 2044:
            bad("C01", "command reaches into the last four bytes of a block", position=pos)
            return
        if limit and pos >= limit:
            bad("C26", "command starts at %d, limit %s" % (pos, limit), position=pos)
        tick, page = ADDR[addr]
        if n < len(levels) and tick != 34 + 2 * levels[n]:
            bad("C14", "sample %d has level %d, duty cycle %d" % (n, levels[n], tick))
            bad("C13", "sample %d has level %d, duty cycle %d" % (n, levels[n], tick))
        if n >= len(SERVED):
            bad("C13", "command %d carries no change of the encoder" % n)
            return
        q, ch = SERVED[n]
        target, is_aux = SEQS[q]
        if (page, data[pos + 2], data[pos + 3:pos + 7]) != (ch[0], ch[1], ch[2]):
            bad("C13", "command %d does not carry the change computed for it" % n)
            return
        if bool(is_aux) != bank:
            bad("C03", "command %d stores %s content while %s memory is selected" % (
                n, "aux" if is_aux else "main", "aux" if bank else "main"), position=pos)
        if arate > frate:
            # sample number n + 1: latest frame due
            due = int((n + 1) * frate / arate + 1e-9)
            near = abs((n + 1) * frate / arate - round((n + 1) * frate / arate)) < 1e-7 and (
                arate / frate != int(arate / frate) or arate != int(arate))
            want = due - due % every
            if not near and target.main_memory.idx != want:
                bad("C13", "sample %d shows frame %d, frame %d is due" % (n + 1, target.main_memory.idx, want))
            if not near and due >= frames:
                bad("C13", "sample %d was encoded although the frames are exhausted" % (n + 1))
        if target.main_memory.aux or (dhgr and (target.aux_memory is None or not target.aux_memory.aux or
                                                target.aux_memory.idx != target.main_memory.idx)):
            bad("C13", "target pictures of different frames or banks")
        if target.cls != ("DHGRBitmap" if dhgr else "HGRBitmap"):
            bad("C13", "target picture of the wrong mode")
        n += 1
        pos += 7
    if ended is None:
        bad("C01", "stream has no terminate command", length=len(data))
        return
    if any(data[ended + 2:]) or len(data) - ended > 2048 or ended // 2048 != (len(data) - 1) // 2048:
        bad("C01", "terminate at %d is not followed by zeros to the end of its block" % ended, length=len(data))
    full = n
    limited = bool(limit) and (ended >= limit or (len(SERVED) > n and ended + 4 >= limit))
    if not limited:
        want = len(levels)
        if arate > frate:
            # encoding stops at the sample at which frame number `frames` is due
            k = frames * arate / frate
            stop = int(k) if k == int(k) else int(k) + 1
            if frames == 0:
                stop = 1
            if abs(k - round(k)) > 1e-7 or arate == int(arate):
                want = min(want, stop - 1)
                if n != want:
                    bad("C13", "%d commands for %d samples and %d frames, want %d" % (n, len(levels), frames, want))
                    bad("C26", "%d commands for %d samples and %d frames, want %d" % (n, len(levels), frames, want))
    if limit and ended + 4 < limit and n < len(SERVED):
        bad("C26", "encoding stops at %d, limit %s" % (ended, limit))


def audio_case(values, norm):
    import types
    import numpy as np
    import importlib.util
    sp = importlib.util.spec_from_file_location("real_audio", os.path.join(REPO, "transcoder", "audio.py"))
    mod = importlib.util.module_from_spec(sp)
    raw = np.array(values, dtype="int16")

    class F(object):
        channels, samplerate, duration = 1, 14700, 1

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def read_data(self, block=4096, **kw):
            b = raw.tobytes()
            h = len(b) // 4 * 2
            for part in (b[:h], b[h:]):
                if part:
                    yield part

    sys.modules["audioread"].audio_open = lambda *a, **kw: F()
    lib = sys.modules["librosa"]
    lib.core = types.SimpleNamespace(to_mono=lambda d: d.mean(axis=0) if d.ndim > 1 else d)
    lib.to_mono = lib.core.to_mono
    lib.resample = lambda a, **kw: a
    sp.loader.exec_module(mod)
    a = mod.Audio("x.mp3", 14700, norm)
    if not (a.normalization > 0 and a.normalization < float("inf")):
        fail("automatic normalisation factor is %r" % (a.normalization,), samples=list(values)[:16])
    if norm and abs(a.normalization - norm) > 1e-9:
        fail("normalisation factor %r instead of %r" % (a.normalization, norm))
    out = list(a.audio_stream())
    if len(out) != len(values):
        fail("%d levels for %d samples" % (len(out), len(values)))
    for v, o in zip(values, out):
        x = v / 16384. * a.normalization * 16
        ok = set()
        for d in (-1e-3, 0, 1e-3):
            ok.add(max(-15, min(16, int(x + d))))
        if int(o) not in ok or o != int(o):
            fail("sample %d, normalisation %r: level %r, want %s" % (v, a.normalization, o, sorted(ok)))


def main():
    rng = rnd(3)
    lv = lambda n: [rng.randint(-15, 16) for _ in range(n)]
    if PROP == "C14":
        full = list(range(-32768, 32768, 7)) + [32767, -32768]
        for norm in (1.0, 2.0, 0.5, 0.001, 3.7, 100.0, 1e6, None):
            audio_case(full, norm)
        for vals in ([0] * 64, [0] * 5000 + [100] * 3, [1] * 32, [-1] * 32, [-32768] * 40, [32767] * 40,
                     [0, 1] * 50, [5] * 10):
            audio_case(vals, None)
        for _ in range(30):
            s = rng.choice([3, 50, 1000, 32767])
            audio_case([rng.randint(-s, s) for _ in range(rng.randint(8, 3000))], rng.choice([None, None, 1.0, 2.5]))
        scenario(True, list(range(-15, 17)) * 3, 10., 3., 1000, 1, 0)
        return
    for m in model_inputs():
        v = m["vars"]
        r, f = v.get("sample_rate", 10.), v.get("frame_rate", 3.)
        if isinstance(r, (int, float)) and isinstance(f, (int, float)) and r > 0 and 0.001 < f and r / f < 5000:
            n = v.get("every_n", 1)
            for dh in (True, False):
                scenario(dh, lv(700), float(r), float(f), 100000, n if isinstance(n, int) and n >= 1 else 1,
                         v.get("max_bytes", 0) if isinstance(v.get("max_bytes", 0), (int, float)) else 0)
    rates = [(10., 3.), (14700., 30.), (22500., 23.976), (7., 2.), (3., 2.), (100., 7.), (49., 1.), (14700., 25.),
             (60., 1.), (14700., 29.97), (2.5, 1.)]
    lim = [0, 0, None, 1, 7, 8, 14, 15, 2036, 2037, 2038, 2043, 2044, 2045, 2047, 2048, 2049, 2055, 4095.5, 4096,
           1048576 * .005, 1e9]
    sizes = [0, 1, 2, 5, 290, 291, 292, 293, 582, 583, 584, 585, 700, 1167, 1168, 1169, 2000]
    for k in range(420):
        a, f = rng.choice(rates)
        n = rng.choice(sizes)
        scenario(rng.random() < .6, lv(n), a, f, rng.choice([0, 1, 2, 5, 40, 100000, 100000]),
                 rng.choice([1, 1, 2, 3, 5, 7]), rng.choice(lim))
    for dh in (True, False):
        scenario(dh, lv(90000), 14700., 30., 100000, 2, 0)
        scenario(dh, lv(90000), 14700., 23.976, 100000, 3, 524288.)


main()
