"""Falsifier for C25: the real FileFrameGrabber with a stand-in video and converter, in a scratch directory."""
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import inspect
import queue
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import numpy as np

R = rnd(25)
VIDEOS = {}


class Reader(object):
    def __init__(self, name, *a, **kw):
        self.name = name

    def nextFrame(self):
        for k in range(VIDEOS[os.path.normpath(self.name)]):
            yield (os.path.normpath(self.name), k)


class Picture(object):
    def __init__(self, of, size=None):
        self.of, self.size = of, size

    def resize(self, size, *a, **kw):
        return Picture(self.of, tuple(size))

    def copy(self):
        return self

    def save(self, path, *a, **kw):
        with open(path, "w") as f:
            f.write(repr((self.of, self.size)))


stub("skvideo")
stub("skvideo.io", FFmpegReader=Reader, ffprobe=lambda *a: {"video": {"@r_frame_rate": "30/1"}})
sys.modules["skvideo"].io = sys.modules["skvideo.io"]
image = stub("PIL.Image", Image=Picture, LANCZOS=1, fromarray=lambda a, *x: Picture(a))
stub("PIL", Image=image)


def content(of, mode, pal, bank):
    """What the converter makes of a picture: a different image for every setting."""
    import hashlib
    h = b"".join(hashlib.sha256(repr((of, mode, pal, bank, j)).encode()).digest() for j in range(8))
    return (h * 32)[:8192]


PROBLEMS = []


def call(args, *a, **kw):
    args = list(args)
    if R.random() < LAZY[0]:
        time.sleep(0.01)
    if os.path.basename(args[0]) != "bmp2dhr":
        PROBLEMS.append("another program is called: %r" % args[:1])
        return 1
    try:
        of, size = eval(open(args[1]).read())
    except Exception as e:
        PROBLEMS.append("the converter is called without its input: %r" % e)
        return 1
    if size != (280, 192):
        PROBLEMS.append("the picture has size %r" % (size,))
    mode = [x for x in args[2:] if x in ("hgr", "dhgr")]
    pal = [x for x in args[2:] if x[:1] == "P"]
    stem = args[1][:-4]
    if mode == ["hgr"]:
        out = [("C.BIN", "main")]
    elif mode == ["dhgr"] and "A" in args:
        out = [(".BIN", "main"), (".AUX", "aux")]
    else:
        PROBLEMS.append("converter options %r" % args[2:])
        return 1
    for suf, bank in out:
        with open(stem + suf, "wb") as f:
            f.write(content(of, mode[0], pal[0] if len(pal) == 1 else repr(pal), bank))
    return 0


def slow(f):
    """Any waiting time may turn out too short."""
    sg = inspect.signature(f)

    def g(*a, **kw):
        b = sg.bind(*a, **kw)
        if b.arguments.get("timeout") is not None:
            b.arguments["timeout"] = 0.002
        return f(*b.args, **b.kwargs)
    return g


for _n in ("get", "put"):
    setattr(queue.Queue, _n, slow(getattr(queue.Queue, _n)))
LAZY = [0, 0]


class Done(object):
    returncode = 0

    def check_returncode(self):
        pass


def run(args, *a, **kw):
    call(args)
    return Done()


subprocess.call = subprocess.check_call = call
subprocess.run = run
import frame_grabber
import screen
import palette
import video_mode


def collect(name, mode, pal):
    fg = frame_grabber.FileFrameGrabber(name, mode, pal)
    out = []
    for x in fg.frames():
        out.append(x)
        if R.random() < LAZY[1]:
            time.sleep(0.01)
    return out


def expect(data):
    return screen.FlatMemoryMap(screen_page=1, data=np.frombuffer(data, dtype=np.uint8)).to_memory_map().page_offset


BASE = [None]


def inside(p):
    """Stand-in for the file system outside of the scratch directory."""
    p = os.fspath(p) if not isinstance(p, int) else p
    if BASE[0] is None or not isinstance(p, str):
        return p
    q = os.path.realpath(p)
    if q == BASE[0] or q.startswith(BASE[0] + os.sep) or "/opt/venv" in q or q.startswith(os.path.realpath(REPO) + os.sep):
        return p
    q = BASE[0] + "/ROOT" + q
    real["makedirs"](os.path.dirname(q), exist_ok=True)
    return q


real = dict(makedirs=os.makedirs)


def contain(o, name, n=1):
    f = getattr(o, name)

    def g(*a, **kw):
        return f(*([inside(x) for x in a[:n]] + list(a[n:])), **kw)
    setattr(o, name, g)


for _n in ("makedirs", "mkdir", "stat", "remove", "unlink", "listdir"):
    contain(os, _n)
for _n in ("rename", "replace"):
    contain(os, _n, 2)
for _n in ("exists", "isfile", "isdir", "getsize", "getmtime"):
    contain(os.path, _n)
contain(np, "fromfile")
import builtins
contain(builtins, "open")


def session(runs, spoil=()):
    """Several runs with one cache; spoil: how files of the cache disappear between them."""
    d = tempfile.mkdtemp(prefix="c25")
    cwd = os.getcwd()
    log = []
    try:
        d = os.path.realpath(d)
        os.chdir(d)
        BASE[0] = d
        VIDEOS.clear()
        os.makedirs("a.b/c")
        for name, n, mode, pal in runs:
            info = dict(history=log + [dict(input=name, frames=n, mode=mode, palette=pal)])
            VIDEOS[os.path.normpath(name)] = n
            if not os.path.exists(name):
                with open(name, "w"):
                    pass
            del PROBLEMS[:]
            box = {}

            def work():
                try:
                    box["out"] = collect(name, video_mode.VideoMode[mode], palette.Palette[pal])
                except BaseException as e:
                    box["error"] = repr(e)
            real_hook = threading.excepthook
            threading.excepthook = lambda a: box.setdefault("worker", repr(a.exc_value))
            t = threading.Thread(target=work, daemon=True)
            t.start()
            t.join(60 + n * 0.03)
            stuck = t.is_alive()
            threading.excepthook = real_hook
            if "worker" in box or "error" in box:
                fail("an exception is raised", exception=box.get("worker") or box["error"], **info)
            if stuck:
                fail("the frame source does not end", **info)
            if PROBLEMS:
                fail("wrong conversion", problem=PROBLEMS[0], **info)
            out = box["out"]
            if len(out) != n:
                fail("not one image per frame", images=len(out), **info)
            banks = ("main", "aux") if mode == "DHGR" else ("main",)
            p = {"IIGS": "P0", "NTSC": "P5"}[pal]
            for k, pair in enumerate(out):
                if len(pair) != 2 or (mode == "HGR" and pair[1] is not None):
                    fail("wrong images for the mode", frame=k, **info)
                for m, bank in zip(pair, banks):
                    want = expect(content((os.path.normpath(name), k), mode.lower(), p, bank))
                    if m is None or not np.array_equal(np.asarray(m.page_offset), want):
                        fail("image is not the conversion of its frame", frame=k, bank=bank, **info)
            log.append(dict(input=name, frames=n, mode=mode, palette=pal))
            gone = []
            for r, _, fs in os.walk("."):
                for f in sorted(fs):
                    if f.endswith((".AUX", ".BIN", ".bmp")) and R.random() < (0.3 if spoil else 0):
                        if f.endswith(spoil):
                            os.remove(os.path.join(r, f))
                            gone.append(f)
            if gone:
                log.append(dict(removed=gone))
    finally:
        BASE[0] = None
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


NAMES = ["noext", "a.b/c/noext", "in.mp4", "in.avi", "in.a.mp4", "a.b/noext", "a.b/in.mp4", "a.b/c/in.mp4", "other", "..x", ".in", "in.", "other.frames.mp4"]
SET = [(m, p) for m in ("HGR", "DHGR") for p in ("NTSC", "IIGS")]
for m, p in SET:
    for n in (0, 1, 2, 9, 10, 11, 12, 25):
        session([("in.mp4", n, m, p)] * 2)
    session([(x, 3, m, p) for x in NAMES])
    session([(x, 3, m, p) for x in reversed(NAMES)])
    for s in (".AUX", ".BIN", (".AUX", ".BIN")):
        session([("in.mp4", 12, m, p)] * 4, spoil=s)
    session([("in.mp4", 1050, m, p), ("in.mp4", 1070, m, p)])
session([("in.mp4", 4, m, p) for m, p in SET + SET[::-1]])
for _ in range(40):
    session([(R.choice([x for x in NAMES]), R.randrange(30)) + R.choice(SET) for _ in range(5)],
            spoil=R.choice([(), ".AUX", ".BIN", (".AUX", ".BIN")]))
for LAZY[:] in ([0.5, 0], [0, 0.5], [0.2, 0.2]):
    for m, p in SET:
        session([("in.mp4", 40, m, p)] * 2)
LAZY[:] = [0, 0]
session([("in.mp4", 10200, "HGR", "NTSC")])
print("OK")
