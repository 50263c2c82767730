"""Falsifier for C27 and the option part of C26: the real main() with a stand-in stream, in a scratch directory."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

PROP = sys.argv[1] if len(sys.argv) > 1 else "C27"
stub("skvideo")
stub("skvideo.io", FFmpegReader=lambda *a, **k: None, ffprobe=lambda *a: {"video": {"@r_frame_rate": "30/1"}})
sys.modules["skvideo"].io = sys.modules["skvideo.io"]
import main
import movie
import audio
import frame_grabber
import video
import video_mode
import palette

R = rnd(27)
STATE = {}


class Video(object):
    def __init__(self, frame_grabber, ticks_per_second, mode=None, palette=None):
        self.frame_grabber, self.ticks_per_second, self.mode, self.palette = frame_grabber, ticks_per_second, mode, palette
        self.out_of_work = {True: False, False: False}


video.Video = Video
audio.Audio._normalization = lambda self, *a, **k: 0.375
BYTES = []


def emit(self, ops):
    STATE["movie"] = self
    return iter(BYTES)


movie.Movie.encode = lambda self: iter(())
movie.Movie.emit_stream = emit
import inspect
real_init = movie.Movie.__init__


def one(name, opts, n):
    del BYTES[:]
    BYTES.extend(R.randrange(256) for _ in range(n))
    STATE.clear()
    argv = [name]
    for k, v in opts.items():
        argv += ["--" + k, str(v)]
    info = dict(argv=argv, stream_bytes=n)
    d = tempfile.mkdtemp(prefix="c27")
    real_cwd = os.getcwd()
    try:
        os.chdir(d)
        os.makedirs("clips.d/a b")
        if n % 2:       # the output of an earlier run, longer than this one
            for f in (opts.get("output"), os.path.splitext(name)[0] + ".a2m"):
                if f and (f == opts.get("output") or "output" not in opts):
                    with open(f, "wb") as out:
                        out.write(b"old" * (n + 1))
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                main.main(main.parser.parse_args(argv))
            except SystemExit:
                fail("a documented option is rejected", **info)
        made = [os.path.relpath(os.path.join(r, f), ".") for r, _, fs in os.walk(".") for f in fs]
        want = os.path.normpath(opts.get("output", os.path.splitext(name)[0] + ".a2m"))
        if PROP == "C27":
            if made != [want]:
                fail("the output file is not the one documented", files=made, expected=want, **info)
            data = open(want, "rb").read()
            if data != bytes(bytearray(BYTES)):
                fail("the file does not hold the stream", length=len(data), **info)
    finally:
        os.chdir(real_cwd)
        shutil.rmtree(d)
    m = STATE["movie"]

    def need(what, got, want, prop="C27"):
        if prop == PROP and got != want:
            fail("option does not reach the encoder: " + what, got=got, expected=want, **info)
    need("size limit", m.max_bytes_out, 1048576 * float(opts.get("max_output_mb", 0)), "C26")
    need("size limit", m.max_bytes_out, 1048576 * float(opts.get("max_output_mb", 0)))
    need("every n-th frame", m.every_n_video_frames, opts.get("every_n_video_frames", 2))
    rate = opts.get("audio_bitrate", 14700)
    need("bit rate", m.audio.sample_rate, rate)
    need("bit rate of the video", m.video.ticks_per_second, rate)
    need("normalization", m.audio.normalization, opts.get("audio_normalization", 0.375))
    need("input", m.audio.filename, name)
    need("input", m.frame_grabber.filename, name)
    mode = video_mode.VideoMode[opts.get("video_mode", "DHGR")]
    pal = palette.Palette[opts.get("palette", "NTSC")]
    for o in (m, m.frame_grabber):
        need("video mode", o.video_mode, mode)
    need("video mode", m.video.mode, mode)
    for o in (m, m.frame_grabber, m.video):
        need("palette", o.palette, pal)


NAMES = ["in.mp4", "noext", "clips.d/noext", "clips.d/a b/x.y.avi", ".hidden", "clips.d/..x", "./in.mov", "a.", "x.a2m.mp4",
         "clips.d/.h.mp4", "A.MP4"]
OPTS = dict(output=["o.a2m", "clips.d/o", "o.bin"], max_output_mb=[0, 1, 2.5, 0.25, 0.3, 4096, 1e-6],
            audio_normalization=[0, 0.5, 2.25, 1e-3], audio_bitrate=[1, 14700, 22500, 44100],
            every_n_video_frames=[1, 2, 3, 17], video_mode=["HGR", "DHGR"], palette=["NTSC", "IIGS"])


def run():
    for name in NAMES:
        one(name, {}, 5)
    for k, vs in OPTS.items():
        for v in vs:
            one("in.mp4", {k: v}, 3)
    for n in (0, 1, 2047, 2048, 70000):
        one("in.mp4", {}, n)
    for k in range(300):
        one(R.choice(NAMES), {o: R.choice(v) for o, v in OPTS.items() if R.random() < .5}, R.randrange(40))


run()
print("OK")
