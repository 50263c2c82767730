"""The command line of the transcoder (C27, and the size option of C26): main() of main.py and the constructors of the
encoder's parts, for any option values and any file name."""
from specs.common import *
from pyvc import instrument as I, tstr as T
import types

MB = 1048576


class Recorder(object):
    def __init__(self, name, log):
        self.name, self.log = name, log

    def __call__(self, *a, **kw):
        self.log.append((self.name, a, kw))


class G27(EN.Ghost):
    def __init__(self):
        self.pending = None         # byte produced and not written yet
        self.lost = False
        self.whole = False          # the rest of the stream was handed over at once
        self.made = 0
        self.ended = False
        self.opened = False
        self.closed = False


class AnyStream(object):
    """The encoded stream: any number of arbitrary bytes."""

    def __init__(self, g):
        self.g = g

    def symiter(self):
        return self

    def __iter__(self):
        raise Unsupported("native iteration over the stream")

    def advance(self, act):
        e, g = V.ENG, self.g
        e.symdec += 1
        e.prove("every byte is written before the next is taken", g.pending is None)
        if not bool(e.fresh_bool("more")):
            g.ended = True
            return False
        b = e.fresh_int("byte", 0, 255, bv=True)
        g.pending = b
        act.value = b
        return True

    def __symbytes__(self):
        self.g.whole = True
        return Whole()

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "stream"))


class Whole(object):
    """All remaining bytes of the stream."""

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "whole"))


class OutFile(object):
    def __init__(self, g):
        self.g = g

    def write(self, x):
        e, g = V.ENG, self.g
        if isinstance(x, Whole):
            e.prove("the stream is written once and completely", not g.ended and g.pending is None)
            g.ended = True
            return
        x = list(x)
        if not x:
            return
        e.prove("exactly the bytes of the stream are written, in order", len(x) == 1 and g.pending is not None and
                V.eq(x[0], g.pending))
        g.pending = None

    def flush(self):
        pass

    def close(self):
        self.g.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.g.closed = True
        return None

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "out"))


def program(state):
    def path_only(p):
        raise Unsupported("file system access")

    def opener(p, mode="r", *a, **kw):
        if isinstance(p, str) and p.startswith(("player/", "transcoder/")):
            return env.repo_open(p, mode)
        return state["open"](p, mode)
    skio = env.mod("skvideo.io", FFmpegReader=lambda *a, **kw: state["reader"](*a, **kw),
                   ffprobe=lambda *a, **kw: state["ffprobe"](*a, **kw))
    os_ = env.mod("os", path=T.os_path(), makedirs=path_only, stat=path_only, remove=path_only,
                  fspath=lambda p: p)
    prog = env.transcoder(
        overrides={"builtins": {"open": opener}}, os=os_, skvideo=env.mod("skvideo", io=skio), **{
            "os.path": os_.path, "skvideo.io": skio})
    prog.load("main")
    return prog


def names(e, case=None):
    """Every file name, by cases: (name, name with its extension replaced)."""
    d = [[], [T.Atom("dir"), "/"]][e.choose(2, "in_dir") if case is None else case % 2]
    k = e.choose(3, "shape") if case is None else case // 2
    plain = T.Atom("name", no="./", nonempty=True)
    if k == 0:          # no extension
        n = T.TStr(*(d + [plain]))
        return n, T.TStr(n, ".a2m")
    if k == 1:          # leading dots only: a name without extension
        n = T.TStr(*(d + [".", T.Atom("dots", dots=True), plain]))
        return n, T.TStr(n, ".a2m")
    root, ext = T.Atom("root", no="/", nondot=True), T.Atom("ext", no="./")
    return T.TStr(*(d + [root, ".", ext])), T.TStr(*(d + [root, ".a2m"]))


def h_main(prog, state, default_name=True):
    main, movie, fg = prog.load("main"), prog.load("movie"), prog.load("frame_grabber")
    audio, video = prog.load("audio"), prog.load("video")
    modes, pals = prog.load("video_mode").VideoMode, prog.load("palette").Palette

    def f():
        e = V.ENG
        g = G27()
        e.ghost_roots["g"] = g
        name, replaced = names(e)
        given = not default_name or bool(e.fresh_bool("output_given"))
        output = T.TStr(T.Atom("output", nonempty=True)) if given else None
        norm = e.fresh_real("normalization") if bool(e.fresh_bool("normalization_given")) else None
        mb = e.fresh_real("mb")
        mode = list(modes)[e.choose(len(list(modes)), "mode")]
        pal = pals.NTSC if bool(e.fresh_bool("ntsc")) else pals.IIGS
        rate, every = e.fresh_int("bitrate", 1, None), e.fresh_int("every", 1, None)
        e.assume(V.boolterm(mb >= 0))
        args = types.SimpleNamespace(
            input=name, output=output, max_output_mb=mb, audio_normalization=norm, audio_bitrate=rate,
            every_n_video_frames=every, video_mode=mode.name, palette=pal.name)
        made = []
        fr = e.fresh_int("rate_num", 1, None), e.fresh_int("rate_den", 1, None)
        opened = []

        def open_(p, m):
            opened.append((p, m))
            return OutFile(g)
        auto = e.fresh_real("auto_normalization")
        probe = {"video": {"@r_frame_rate": "30000/1001"}}

        def wrap(cls, label):
            init = cls.__init__

            def build(self, *a, **kw):
                init(self, *a, **kw)
                made.append((label, self))
            cls.__init__ = build

        class Video(object):
            def __init__(self, frame_grabber, ticks_per_second, mode=modes.HGR, palette=pals.NTSC):
                self.frame_grabber, self.ticks_per_second = frame_grabber, ticks_per_second
                self.mode, self.palette = mode, palette
                self.out_of_work = {True: False, False: False}
                made.append(("video", self))
        read = []
        state.update(open=open_, reader=lambda p, *a, **kw: read.append(p), ffprobe=lambda p: read.append(p) or probe)
        saved = [(c, "__init__", c.__init__) for c in (audio.Audio, fg.FileFrameGrabber, movie.Movie)] + [
            (video, "Video", video.Video), (audio.Audio, "_normalization", audio.Audio._normalization),
            (movie.Movie, "encode", movie.Movie.encode), (movie.Movie, "emit_stream", movie.Movie.emit_stream)]
        streams = []

        def emit(self, ops):
            streams.append((self, ops))
            return AnyStream(g)
        try:
            audio.Audio._normalization = lambda self, *a, **kw: auto
            movie.Movie.encode = lambda self: ("ops", self)
            movie.Movie.emit_stream = emit
            wrap(audio.Audio, "audio")
            wrap(movie.Movie, "movie")
            wrap(fg.FileFrameGrabber, "frames")
            video.Video = Video
            noexc(e, "main", main.main, args)
        finally:
            for o, k, v in saved:
                setattr(o, k, v)
        by = {k: [o for n, o in made if n == k] for k in ("audio", "frames", "video", "movie")}
        one = all(len(v) == 1 for v in by.values())
        e.prove("one encoder is made", one, repr([k for k, _ in made]))
        a, fr, vi, mo = [by[k][0] for k in ("audio", "frames", "video", "movie")]
        e.prove("the input file is the one named", a.filename is name and fr.filename is name and
                all(x is name for x in read) and len(read) > 0)
        e.prove("the audio bit rate is the one given", V.land(V.eq(a.sample_rate, rate), V.eq(vi.ticks_per_second, rate)))
        e.prove("the normalization is the one given, or computed", V.eq(a.normalization, auto if norm is None else norm))
        e.prove("every n-th frame, with the n given", V.eq(mo.every_n_video_frames, every))
        e.prove("size limit: as many times 1048576 bytes as MB are given", V.eq(mo.max_bytes_out, mb * MB))
        e.prove("the video mode is the one given", mo.video_mode is mode and fr.video_mode is mode and vi.mode is mode)
        e.prove("the palette is the one given", mo.palette is pal and fr.palette is pal and vi.palette is pal)
        e.prove("the parts belong together", vi.frame_grabber is fr and mo.audio is a and mo.video is vi and
                mo.frame_grabber is fr)
        e.prove("one stream is encoded, from the movie's commands", len(streams) == 1 and streams[0][0] is mo and
                streams[0][1] == ("ops", mo))
        e.prove("one file is written, as bytes", len(opened) == 1 and opened[0][1] in ("wb", "bw"), repr(opened))
        want = output if given else replaced
        e.prove("the stream is written to the named output" if given else
                "without an output name the extension is replaced by .a2m", len(opened) == 1 and opened[0][0] == want,
                "%r instead of %r" % (opened and opened[0][0], want))
        e.prove("the whole stream is written", g.ended and g.pending is None)
        e.prove("the file is closed", g.closed)
        e.cover("main")
    return f


def options(chk, prog, only=None):
    """The option parser, on sample command lines."""
    main = prog.load("main")
    # defaults as the help texts document them
    base = dict(input="in.mp4", output=None, max_output_mb=0, audio_normalization=None, audio_bitrate=14700,
                every_n_video_frames=2, video_mode="DHGR", palette="NTSC")
    for opt, text, key, val in (("--output", "x/y.z", "output", "x/y.z"), ("--max_output_mb", "1.5", "max_output_mb", 1.5),
                                ("--max_output_mb", "3", "max_output_mb", 3), ("--audio_normalization", "0.25",
                                                                               "audio_normalization", 0.25),
                                ("--audio_bitrate", "22500", "audio_bitrate", 22500),
                                ("--every_n_video_frames", "5", "every_n_video_frames", 5),
                                ("--video_mode", "HGR", "video_mode", "HGR"), ("--video_mode", "DHGR", "video_mode", "DHGR"),
                                ("--palette", "IIGS", "palette", "IIGS"), ("--palette", "NTSC", "palette", "NTSC"),
                                (None, None, None, None)):
        if only and opt != only:
            continue
        try:
            a = vars(main.parser.parse_args(["in.mp4"] + ([opt, text] if opt else [])))
        except SystemExit:
            a = "rejected"
        want = dict(base)
        if key:
            want[key] = val
        chk.ob("option parser: %s" % ("%s %s" % (opt, text) if opt else "defaults"), a == want, "%r instead of %r" % (a, want))


def task(prop):
    def f(c):
        state = {}
        prog = program(state)
        if prop == "C26":
            c.keep = lambda n: "size limit" in n
        prog.engine(c, "command line: ", max_paths=4000).run(h_main(prog, state, prop != "C26"))
        c.keep = None
        options(c, prog, "--max_output_mb" if prop == "C26" else None)
    return ("command line", f)


CONTRACTS = ("main.main", "movie.Movie.__init__", "audio.Audio.__init__", "frame_grabber.FileFrameGrabber.__init__")
