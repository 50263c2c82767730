"""The frame source (C25): FileFrameGrabber.frames() with the conversion worker.

The worker and the consumer communicate through one queue only (a deterministic producer and a deterministic consumer), so
they are verified one after the other: first the worker, whose k-th put must be a function of frame k alone; then the
consumer, whose queue delivers the items the worker was seen to put.  The file system is a ghost map from path templates
to contents; what an earlier run left there is only known to satisfy the cache invariant (a file at the output path of a
frame holds that frame's conversion), which the last obligation shows to be consistent: an output path read for one
(frame number, input file, mode, palette, bank) is never written for another."""
from specs import cli
from specs.common import *
from pyvc import tstr as T
import queue as real_queue

PALETTE_ID = {"IIGS": 0, "NTSC": 5}         # BMP2DHR palette numbers
QUIET = (Unsupported, EN.PathClosed, EN.Infeasible, EN.Restart)


class Frame(object):
    """Picture k of the input video, possibly resized."""

    def __init__(self, k, size=None, src=None):
        self.k, self.size, self.src = k, size, src

    def resize(self, size, *a, **kw):
        return Frame(self.k, tuple(size))

    def copy(self):
        return self

    def save(self, path, *a, **kw):
        V.ENG.fs.write(path, ("image", self.k, self.size))

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "frame", self.size))
        node(path + ("k",), self.k, lambda v: setattr(self, "k", v))


class Content(object):
    """Bytes of a converted picture: bank "main" or "aux" of frame k."""

    def __init__(self, bank, k):
        self.bank, self.k = bank, k

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "content", self.bank))
        node(path + ("k",), self.k, lambda v: setattr(self, "k", v))


class Screen(object):
    """Screen image made of flat memory content."""

    def __init__(self, content, page):
        self.content, self.page = content, page

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "screen", self.page))
        node(path + ("c",), self.content, None)


class Flat(object):
    def __init__(self, screen_page, data=None):
        self.page, self.data = screen_page, data

    def to_memory_map(self):
        return Screen(self.data, self.page)

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "flat", self.page))
        node(path + ("d",), self.data, None)


class FS(object):
    """File system as far as it was looked at since the last frame was taken from the video."""

    def __init__(self, run):
        self.run, self.entries, self.dirs = run, [], []

    def find(self, path):
        for i, (p, _) in enumerate(self.entries):
            if V.ENG.entailed(V.boolterm(p == T.TStr(path))):
                return i
            if not V.ENG.entailed(V.boolterm(V.neg(p == T.TStr(path)))):
                raise Unsupported("possibly equal paths")
        return None

    def get(self, path):
        """Content or None (absent)."""
        path = T.TStr(path)
        i = self.find(path)
        if i is None:
            there = bool(V.ENG.fresh_bool("exists"))
            self.entries.append((path, ("old", path) if there else None))
            i = len(self.entries) - 1
        return self.entries[i][1]

    def write(self, path, content):
        path = T.TStr(path)
        i = self.find(path)
        if i is None:
            self.entries.append((path, content))
        else:
            self.entries[i] = (self.entries[i][0], content)

    def __walk__(self, path, slots, sig, node):
        pass


class G25(EN.Ghost):
    def __init__(self):
        self.taken = 0          # frames taken from the video
        self.put = 0            # items put
        self.ended = False
        self.finals = 0         # items put after the last frame
        self.got = 0
        self.got_end = 0
        self.given = 0          # frames in the video (consumer)


class Video(object):
    def __init__(self, g, fs):
        self.g, self.fs = g, fs

    def symiter(self):
        return self

    def __iter__(self):
        raise Unsupported("native iteration over the video")

    def advance(self, act):
        e, g = V.ENG, self.g
        e.symdec += 1
        e.prove("worker: one item is put for every frame", V.eq(g.put, g.taken))
        del self.fs.entries[:]
        if g.ended or not bool(e.fresh_bool("more_frames")):
            g.ended = True
            return False
        act.value = Frame(g.taken)
        g.taken = g.taken + 1
        return True

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "video"))
        node(path + ("g",), self.g, None)


class Run(object):
    """What the worker was seen to do, over all paths."""

    def __init__(self):
        self.items, self.ends, self.reads, self.writes = [], [], [], []


def shape(x, e, k):
    """Item as a function of the frame number."""
    if x is None or isinstance(x, (bool, str)):
        return ("c", x)
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(shape(y, e, k) for y in x)
    if isinstance(x, (int, V.Sym)):
        if k is not None and e.entailed(V.boolterm(V.eq(x, k))):
            return ("k",)
        if isinstance(x, int):
            return ("c", x)
        raise Unsupported("number in a queue item")
    if isinstance(x, Content):
        e.prove("worker: an item holds the conversion of its own frame", k is not None and V.eq(x.k, k))
        return ("content", x.bank)
    if isinstance(x, Screen):
        return ("screen", x.page, shape(x.content, e, k))
    if isinstance(x, Flat):
        return ("flat", x.page, shape(x.data, e, k))
    raise Unsupported("queue item of type %s" % type(x).__name__)


def build(s, k):
    t = s[0]
    if t == "c":
        return s[1]
    if t == "k":
        return k
    if t in ("tuple", "list"):
        r = [build(y, k) for y in s[1:]]
        return tuple(r) if t == "tuple" else r
    if t == "content":
        return Content(s[1], k)
    if t == "screen":
        return Screen(build(s[2], k), s[1])
    return Flat(s[1], build(s[2], k))


class Queue(object):
    def __walk__(self, path, slots, sig, node):
        sig.append((path, "queue"))

    def __init__(self, state, maxsize=0):
        self.state, self.maxsize = state, maxsize
        state["queues"].append(self)

    def put(self, item, block=True, timeout=None):
        st, e = self.state, V.ENG
        if st["phase"] != 1:
            raise Unsupported("the consumer puts items")
        g, run = st["g"], st["run"]
        if self.maxsize > 0 and (not block or timeout is not None) and bool(e.fresh_bool("full")):
            raise real_queue.Full()
        if not g.ended:
            e.prove("worker: one item is put for every frame", V.eq(g.put + 1, g.taken))
            s = shape(item, e, g.put)
            if s not in run.items:
                run.items.append(s)
            g.put = g.put + 1
        else:
            s = shape(item, e, None)
            n = g.finals
            e.prove("worker: at most a few end marks", isinstance(n, int) and n < 8)
            if (n, s) not in run.ends:
                run.ends.append((n, s))
            g.finals = n + 1

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        st, e = self.state, V.ENG
        if st["phase"] != 2:
            raise Unsupported("the worker takes items")
        g, run = st["g"], st["run"]
        e.symdec += 1
        if (not block or timeout is not None) and bool(e.fresh_bool("empty")):
            raise real_queue.Empty()
        if bool(g.got < g.given):
            k = g.got
            g.got = k + 1
            s = run.items[e.choose(len(run.items), "item")]
            return build(s, k)
        n = g.got_end
        ends = sorted(set(run.ends), key=repr)
        mine = [s for j, s in ends if isinstance(n, int) and j == n]
        if not mine:
            e.fail("consumer: the source ends after the last frame", "the consumer waits for more items than are put")
            raise EN.Infeasible()
        g.got_end = n + 1
        return build(mine[e.choose(len(mine), "end")], None)

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        pass

    def empty(self):
        return bool(V.ENG.fresh_bool("queue_empty"))

    def full(self):
        return bool(V.ENG.fresh_bool("queue_full"))

    def qsize(self):
        return V.ENG.fresh_int("qsize", 0, self.maxsize or None)

    def join(self):
        raise Unsupported("Queue.join")


class Thread(object):
    def __walk__(self, path, slots, sig, node):
        sig.append((path, "thread"))

    def __init__(self, state, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.state, self.target, self.args, self.kwargs = state, target, tuple(args), dict(kwargs or {})
        self.started = False

    def setDaemon(self, d):
        pass

    def start(self):
        st, e = self.state, V.ENG
        if self.started:
            raise RuntimeError("threads can only be started once")
        self.started = True
        st["threads"] += 1
        if st["threads"] > 1:
            raise Unsupported("several threads")
        if st["phase"] == 2:
            return
        g = st["g"]
        noexc(e, "worker", self.target, *self.args, **self.kwargs)
        e.prove("worker: every frame of the video is converted", g.ended)
        e.prove("worker: one item is put for every frame", V.eq(g.put, g.taken))
        e.prove("worker: the end is marked", isinstance(g.finals, int) and g.finals > 0)
        e.cover("worker ends")
        raise EN.PathClosed()

    def join(self, timeout=None):
        st, e = self.state, V.ENG
        g = st["g"]
        if st["phase"] == 2 and timeout is None and any(q.maxsize > 0 for q in st["queues"]):
            ends = 1 + max([j for j, _ in st["run"].ends] or [-1])
            e.prove("consumer: the worker is not waited for while it may wait for the consumer", V.land(
                V.eq(g.got, g.given), isinstance(g.got_end, int) and ends - g.got_end <= min(
                    q.maxsize for q in st["queues"] if q.maxsize > 0)))

    def is_alive(self):
        return bool(V.ENG.fresh_bool("alive"))


def program(state):
    import types

    def stat(path, *a, **kw):
        if state["fs"].get(path) is None:
            raise FileNotFoundError(2, "No such file or directory")
        return types.SimpleNamespace(st_size=V.ENG.fresh_int("st_size", 0, None))

    def exists(path):
        return state["fs"].get(path) is not None

    def remove(path):
        if state["fs"].get(path) is None:
            raise FileNotFoundError(2, "No such file or directory")
        state["fs"].write(path, None)

    def rename(a, b):
        c = state["fs"].get(a)
        if c is None:
            raise FileNotFoundError(2, "No such file or directory")
        state["fs"].write(a, None)
        if c[0] == "conv":
            state["written"](b, c)
        state["fs"].write(b, c)

    def makedirs(path, mode=0o777, exist_ok=False):
        e = V.ENG
        p, n = T.TStr(path).parts, T.TStr(state["name"]).parts
        under = len(p) > len(n) and all(a is b or a == b for a, b in zip(p, n)) and isinstance(
            p[len(n)], str) and p[len(n)].startswith("/")
        e.prove("the cache directory can exist beside the input file", not under, repr(path))
        if not exist_ok and bool(e.fresh_bool("directory_exists")):
            raise FileExistsError(17, "File exists")

    def call(args, *a, **kw):
        e, fs = V.ENG, state["fs"]
        args = list(args)
        e.prove("converter: bmp2dhr is called", isinstance(args[0], str) and args[0].split("/")[-1] == "bmp2dhr")
        src = args[1]
        opts = [x for x in args[2:] if isinstance(x, str)]
        mode = [x for x in opts if x.lower() in ("hgr", "dhgr")]
        e.prove("converter: the selected mode is requested", mode == [state["mode"].name.lower()], repr(opts))
        e.prove("converter: the selected palette is requested", [x for x in opts if x[:1] == "P"] == [
            "P%d" % PALETTE_ID[state["pal"].name]], repr(opts))
        img = fs.get(src)
        ok = img is not None and img[0] == "image"
        e.prove("converter: its input is a picture of this run", ok, repr(img))
        if not ok:
            raise EN.Infeasible()
        e.prove("converter: its input has 280 x 192 points", img[2] == (280, 192), repr(img[2]))
        p = T.TStr(src)
        e.prove("converter: its input is a .bmp file", p.endswith(".bmp"))
        stem = p[:-4]
        if state["mode"].name == "HGR":
            outs = [("C.BIN", "main")]
        elif "A" in opts:
            outs = [(".BIN", "main"), (".AUX", "aux")]
        else:
            outs = [(".A2FC", "both")]
        for suf, bank in outs:
            c = ("conv", bank, img[1])
            state["written"](T.TStr(stem, suf), c)
            fs.write(T.TStr(stem, suf), c)
        return 0

    def fromfile(path, dtype=float, *a, **kw):
        e, fs, g = V.ENG, state["fs"], state["g"]
        if a or kw:
            raise Unsupported("fromfile(%r, %r)" % (a, kw))
        e.prove("images are read as bytes", N.dtname(dtype) == "uint8")
        c = fs.get(path)
        if c is None:
            raise FileNotFoundError(2, "No such file or directory")
        if c[0] == "conv":
            return Content(c[1], c[2])
        if c[0] == "old":
            # cache invariant: the conversion of the frame whose output path this is
            r = Content("?", g.taken - 1)
            p = T.TStr(path)
            r.bank = "aux" if p.endswith(".AUX") else "main"
            state["read"](p, r)
            return r
        e.fail("a converted picture is read", "%r holds %r" % (path, c))
        raise EN.Infeasible()
    os_ = env.mod("os", path=T.os_path(exists=exists, isfile=exists), makedirs=makedirs, stat=stat, remove=remove, unlink=remove,
                  rename=rename, replace=rename, fspath=lambda p: p, sep="/")
    sub = env.mod("subprocess", call=call, check_call=call, DEVNULL=-3, PIPE=-1,
                  run=lambda args, *a, **kw: (call(args), types.SimpleNamespace(returncode=0, check_returncode=lambda: None))[1])
    q = env.mod("queue", Queue=lambda maxsize=0: Queue(state, maxsize), Empty=real_queue.Empty, Full=real_queue.Full,
                SimpleQueue=lambda: Queue(state, 0))
    th = env.mod("threading", Thread=lambda *a, **kw: Thread(state, *a, **kw))
    image = env.mod("PIL.Image", Image=object, LANCZOS=1, BICUBIC=3, BILINEAR=2, NEAREST=0,
                    fromarray=lambda a, *x: a)

    def reader(name, *a, **kw):
        return types.SimpleNamespace(nextFrame=lambda: (
            V.ENG.prove("the frames are those of the input file", name is state["name"]), Video(state["g"], state["fs"]))[1])
    skio = env.mod("skvideo.io", FFmpegReader=reader, ffprobe=lambda p: {"video": {"@r_frame_rate": "30000/1001"}})
    screen = env.mod("screen", FlatMemoryMap=Flat, MemoryMap=Screen)
    prog = env.transcoder(
        np_extra=dict(fromfile=fromfile), os=os_, subprocess=sub, queue=q, threading=th, screen=screen,
        PIL=env.mod("PIL", Image=image), skvideo=env.mod("skvideo", io=skio), **{
            "os.path": os_.path, "skvideo.io": skio, "PIL.Image": image})
    prog.load("frame_grabber")
    return prog


NAMES = ("plain name", "plain name in a directory", "dot name", "dot name in a directory", "name with extension",
         "name with extension in a directory")


def h_frames(prog, state, run, phase, mode, ntsc, case=0):
    fg = prog.load("frame_grabber")
    modes, pals = prog.load("video_mode").VideoMode, prog.load("palette").Palette
    mode = modes[mode]

    def f():
        e = V.ENG
        g = G25()
        e.ghost_roots["g"] = g
        fs = FS(run)
        e.fs = fs
        if phase == 1:
            name = cli.names(e, case)[0]
        else:
            name = T.TStr(T.Atom("root", no="/", nondot=True), ".", T.Atom("ext", no="./"))
        pal = pals.NTSC if ntsc else pals.IIGS
        key = (name, mode.name, pal.name)

        def written(path, c):
            run.writes.append((path, key, c[1], c[2], list(e.pc)))

        def read(path, c):
            run.reads.append((path, key, c.bank, c.k, list(e.pc)))
        state.update(g=g, fs=fs, run=run, phase=phase, queues=[], threads=0, name=name, mode=mode, pal=pal,
                     written=written, read=read)
        o = noexc(e, "FileFrameGrabber", fg.FileFrameGrabber, name, mode, pal)
        if phase == 1:
            e.user_inv.append(lambda: [("items put so far", V.land(g.put >= 0, V.lor(V.eq(g.put, g.taken), V.eq(
                g.put + 1, g.taken))))])

            def first():
                for x in o.frames():
                    e.fail("worker: it starts before the first image is delivered")
                    raise EN.Infeasible()
            noexc(e, "frames", first)
            e.fail("worker: a thread is started")
            return
        g.given = e.fresh_int("frames", 0, None)
        g.out = 0
        e.user_inv.append(lambda: [("items taken so far", V.land(g.got >= 0, g.got <= g.given, g.out >= 0,
                                                                 g.out <= g.got))])
        want = ("main", "aux") if mode.name == "DHGR" else ("main", None)

        def consume():
            for pair in o.frames():
                k = g.out
                g.out = k + 1
                ok = isinstance(pair, (tuple, list)) and len(pair) == 2
                e.prove("consumer: a pair of images is delivered", ok)
                if not ok:
                    raise EN.Infeasible()
                for got, bank in zip(pair, want):
                    if bank is None:
                        e.prove("consumer: HGR has no auxiliary image", got is None)
                        continue
                    ok = isinstance(got, Screen) and isinstance(got.content, Content)
                    e.prove("consumer: every image is a screen image of a conversion", ok, repr(got))
                    if not ok:
                        raise EN.Infeasible()
                    e.prove("consumer: the %s image is the converter's %s output" % (bank, bank), got.content.bank == bank)
                    e.prove("consumer: images are delivered in input order, each once", V.eq(got.content.k, k))
                    e.prove("consumer: the image is laid out as screen page 1", got.page == 1)
        noexc(e, "frames", consume)
        e.prove("consumer: every frame is delivered before the end", V.eq(g.out, g.given))
        e.cover("all frames delivered")
    return f


# --------------------------------------------------------------------------------------------- path injectivity
def unify(a, b):
    """Conditions under which two templates are equal: list of ("num", x, y) ("atom", p, q) and ("maybe", ..)
    for what stays open; None: never equal."""
    a, b = T.TStr(*a), T.TStr(*b)
    for sep in "/.":
        try:
            x, y = a.find_last(sep), b.find_last(sep)
        except Unsupported:
            h = {a.has(sep), b.has(sep)}
            if h == {True, False}:
                return None
            continue
        if x is None and y is None:
            continue
        if x is None or y is None:
            return None
        (a1, a2), (b1, b2) = a.cut(x, 1), b.cut(y, 1)
        r, s = unify(T.TStr(a1).parts, T.TStr(b1).parts), unify(T.TStr(a2).parts, T.TStr(b2).parts)
        return None if r is None or s is None else r + s
    p, q = list(a.parts), list(b.parts)
    for x, y in ((p, q), (q, p)):
        # a name of dots followed by text without dots / text that is not only dots, followed by a dot
        if len(x) == 3 and x[0] == "." and getattr(x[1], "dots", False) and not isinstance(x[2], str) and not x[2].may(
                ".") and len(y) == 3 and getattr(y[0], "nondot", False) and y[1] == ".":
            return None
    if p and q and all(getattr(x[0], "dots", False) and len(x) > 1 and getattr(x[1], "nonempty", False) and not x[1].may(
            ".") for x in (p, q)):
        r = unify(p[1:], q[1:])
        return None if r is None else [("atom", p[0].name, q[0].name)] + r
    if not p and not q:
        return []
    if not p or not q:
        rest = p or q
        if any(isinstance(x, str) or x.nonempty for x in rest):
            return None
        return [("maybe", repr(p), repr(q))]
    if p == q and all(isinstance(x, str) for x in p):
        return []
    if all(isinstance(x, str) for x in p + q):
        return None
    for end in (0, -1):
        x, y = p[end], q[end]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            u, v = (x[:n], y[:n]) if end == 0 else (x[len(x) - n:], y[len(y) - n:])
            if u != v:
                return None
            if end == 0:
                p[0], q[0] = x[n:], y[n:]
            else:
                p[-1], q[-1] = x[:len(x) - n], y[:len(y) - n]
            return unify(p, q)
    if len(p) == len(q) == 1:
        for x, y in ((p[0], q[0]), (q[0], p[0])):
            if isinstance(x, T.Num) and isinstance(y, str):
                if not y.lstrip("-").isdigit() or x.spec % int(y) != y:
                    return None
                return [("num", p[0].v if x is p[0] else int(y), int(y) if x is p[0] else q[0].v)]
        if isinstance(p[0], T.Num) and isinstance(q[0], T.Num) and p[0].spec == q[0].spec:
            return [("num", p[0].v, q[0].v)]
        if isinstance(p[0], T.Atom) and isinstance(q[0], T.Atom):
            return [("atom", p[0].name, q[0].name)]
    if isinstance(p[0], T.Num) and isinstance(q[0], T.Num) and p[0].spec == q[0].spec and T.digits_end(p, 0) and T.digits_end(q, 0):
        r = unify(p[1:], q[1:])
        return None if r is None else [("num", p[0].v, q[0].v)] + r
    return [("maybe", repr(p), repr(q))]


def prime(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append((x, z3.Const(x.decl().name() + "'", x.sort())))
        todo.extend(x.children())
    return z3.substitute(t, *out) if out else t


def term(v):
    v = V.as_int(v)
    return z3.IntVal(v) if isinstance(v, int) else V.intterm(v) if hasattr(V, "intterm") else v.t


def clash(r, w):
    """Why a path read for one key may have been written for another; None when that is impossible."""
    (p1, key1, bank1, k1, pc1), (p2, key2, bank2, k2, pc2) = r, w
    c = unify(T.TStr(p1).parts, T.TStr(p2).parts)
    if c is None:
        return None
    s = z3.Solver()
    s.set("timeout", 10000)
    s.add(pc1)
    s.add([prime(x) for x in pc2])
    for t, x, y in c:
        if t == "num":
            s.add(term(x) == prime(term(y)))
    if s.check() == z3.unsat:
        return None
    if (key1[1:], bank1) != (key2[1:], bank2):
        return "mode, palette or bank: %s / %s" % (p1, p2)
    n = unify(T.TStr(key1[0]).parts, T.TStr(key2[0]).parts)
    atoms = [x for x in c if x[0] == "atom"]
    if n is None or any(x not in atoms for x in n):
        return "input file: %s / %s share %s" % (key1[0], key2[0], p1)
    s.add(term(k1) != prime(term(k2)))
    if s.check() != z3.unsat:
        return "frame number: %s" % p1
    return None


def task():
    def f(c):
        state = {}
        prog = program(state)
        runs = {(m, n): Run() for m in ("HGR", "DHGR") for n in (True, False)}
        cases = [(m, ntsc, k) for m in ("HGR", "DHGR") for ntsc in (True, False) for k in range(len(NAMES))]
        for m, ntsc, k in cases:
            prog.engine(c, "%s, %s, %s: " % (m, "NTSC" if ntsc else "IIGS", NAMES[k])).run(
                h_frames(prog, state, runs[m, ntsc], 1, m, ntsc, k))
        bad, n = None, 0
        seen = set()
        ws = []
        for w in [w for run in runs.values() for w in run.writes]:
            key = repr((w[:3], [x.sexpr() for x in w[4]], str(w[3])))
            if key not in seen:
                seen.add(key)
                ws.append(w)
        seen = set()
        for r in [r for run in runs.values() for r in run.reads]:
            key = repr((r[:3], [x.sexpr() for x in r[4]], str(r[3])))
            if key in seen:
                continue
            seen.add(key)
            for w in ws:
                n += 1
                bad = bad or clash(r, w)
        c.ob("cache: a file is used only for the frame, input file, mode and palette it was written for", bad is None,
             bad or "%d pairs of accesses" % n, backend="z3")
        for (m, ntsc), run in runs.items():
            if run.items and run.ends:
                prog.engine(c, "%s, %s: " % (m, "NTSC" if ntsc else "IIGS")).run(h_frames(prog, state, run, 2, m, ntsc))
    return ("frames", f)


CONTRACTS = ("frame_grabber.FileFrameGrabber.__init__", "frame_grabber.FileFrameGrabber.frames",
             "frame_grabber.FileFrameGrabber.frames._hgr_decode", "frame_grabber.FileFrameGrabber.frames._dhgr_decode",
             "frame_grabber.FileFrameGrabber.frames.worker", "frame_grabber.FileFrameGrabber._frame_grabber",
             "frame_grabber.FileFrameGrabber._output_dir", "frame_grabber.FileFrameGrabber._palette_arg")
