"""The streaming server (C21): main() of server.py together with the standard library's socketserver, which is executed
from its source.  The content of the movie file is a sequence of unknown length of which only positions are known, so
"all bytes, once, in order" is a statement about positions."""
from specs.common import *
from pyvc import instrument as I
import sys
import types

SOCKETSERVER = "/usr/lib/pypy3.9/socketserver.py"
QUIET = (Unsupported, EN.PathClosed, EN.Infeasible, EN.Restart)


class Name(object):
    """An unknown path: it can only be passed on."""

    def __repr__(self):
        return "<path>"


class FBytes(object):
    """Bytes lo..hi-1 of the movie file; 0 <= lo <= hi <= size holds of every one by construction."""

    def __init__(self, lo, hi, size):
        self.lo, self.hi, self.size = lo, hi, size

    def ok(self):
        V.ENG.assume(V.boolterm(V.land(self.lo >= 0, self.lo <= self.hi, self.hi <= self.size)))
        return self

    def __symlen__(self):
        self.ok()
        return self.hi - self.lo

    nbytes = property(__symlen__)

    def __len__(self):
        raise Unsupported("native length of file content")

    def __bool__(self):
        return bool(self.ok().hi > self.lo)

    def __eq__(self, o):
        if isinstance(o, FBytes):
            return V.land(V.eq(self.lo, o.lo), V.eq(self.hi, o.hi)) if o is not self else True
        if o == b"":
            return V.eq(self.lo, self.hi)
        if isinstance(o, (str, int)) or o is None:
            return False
        raise Unsupported("comparison of file content")

    def __ne__(self, o):
        return V.neg(self == o)

    def __hash__(self):
        raise Unsupported("hash of file content")

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported("single bytes of the file content")
        n = self.ok().hi - self.lo

        def clamp(i, d):
            if i is None:
                return d
            i = V.as_int(i)
            if bool(i < 0):
                i = i + n
            return V.ite(i < 0, 0, V.ite(i > n, n, i))
        a, b = clamp(s.start, 0), clamp(s.stop, n)
        return FBytes(self.lo + a, self.lo + V.ite(b < a, a, b), self.size)

    def __add__(self, o):
        if isinstance(o, FBytes) and bool(V.eq(self.hi, o.lo)):
            return FBytes(self.lo, o.hi, self.size)
        if not isinstance(o, FBytes) and o == b"":
            return self
        raise Unsupported("other content appended to file content")

    def __radd__(self, o):
        if o == b"":
            return self
        raise Unsupported("other content before file content")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def release(self):
        pass

    def tobytes(self):
        return self

    def cast(self, *a):
        return self

    def __symbytes__(self):
        return self

    def __walk__(self, path, slots, sig, node):
        sig.append((path, "filebytes"))
        node(path + ("lo",), self.lo, lambda v: setattr(self, "lo", v))
        node(path + ("hi",), self.hi, lambda v: setattr(self, "hi", v))


class FFile(EN.Ghost):
    """The movie file opened for reading bytes (a regular file: read(n) is short only at the end)."""

    def __init__(self, size):
        self.size, self.pos, self.open = size, 0, True
        V.ENG.user_inv.append(lambda: [("the file position is in the file", V.land(self.pos >= 0, self.pos <= self.size))])

    def check(self):
        if not self.open:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self.check()
        a = self.pos
        if n is None or (not isinstance(n, V.Sym) and n < 0):
            b = self.size
        else:
            n = V.as_int(n)
            if isinstance(n, V.Sym) and bool(n < 0):
                b = self.size
            else:
                b = V.ite(a + n < self.size, a + n, self.size)
        a = V.ite(a < self.size, a, self.size)
        b = V.ite(b < a, a, b)
        self.pos = b
        return FBytes(a, b, self.size)

    read1 = readall = read

    def seek(self, n, whence=0):
        self.check()
        p = V.as_int(n) if whence == 0 else self.pos + n if whence == 1 else self.size + n
        if bool(V.lor(p < 0, p > self.size)):
            raise Unsupported("seek outside of the file")
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def close(self):
        self.open = False

    def __enter__(self):
        self.check()
        return self

    def __exit__(self, *a):
        self.open = False
        return None


class Client(EN.Ghost):
    """A connected client: it takes the bytes it is sent at any pace, or goes away at any time."""

    def __init__(self, size):
        self.size, self.sent, self.gone, self.ended, self.timeout = size, 0, False, False, None
        V.ENG.user_inv.append(lambda: [("at most the file is sent", V.land(self.sent >= 0, self.sent <= self.size))])

    def leave(self):
        self.gone = True
        raise BrokenPipeError("client disconnected")

    def take(self, data):
        e = V.ENG
        if self.ended:
            raise OSError("socket closed")
        if not isinstance(data, FBytes):
            if not isinstance(data, (bytes, bytearray)):
                raise TypeError("a bytes-like object is required")
            e.prove("only the bytes of the movie are sent", len(data) == 0, repr(data[:40]))
            data = FBytes(self.sent, self.sent, self.size)
        data.ok()
        e.prove("bytes are sent in order, none skipped or sent twice", V.lor(V.eq(data.lo, self.sent), V.eq(
            data.lo, data.hi)))
        e.assume(V.boolterm(V.lor(V.eq(data.lo, self.sent), V.eq(data.lo, data.hi))))
        if bool(e.fresh_bool("leaves")):
            self.leave()
        return data

    def sendall(self, data, flags=0):
        data = self.take(data)
        if self.timeout is not None and bool(V.ENG.fresh_bool("slow")):
            n = V.ENG.fresh_int("partial", 0, None)
            V.ENG.assume(V.boolterm(self.sent + n < data.hi))
            self.sent = self.sent + n
            raise TimeoutError("timed out")
        self.sent = V.ite(data.hi > data.lo, data.hi, self.sent)
        return None

    def send(self, data, flags=0):
        data = self.take(data)
        if self.timeout is not None and bool(V.ENG.fresh_bool("slow")):
            raise TimeoutError("timed out")
        n = V.ENG.fresh_int("taken", 0, None)
        ln = data.hi - data.lo
        V.ENG.assume(V.boolterm(V.land(n <= ln, V.implies(ln > 0, n >= 1))))
        self.sent = self.sent + n
        return n

    def sendfile(self, f, offset=0, count=None):
        f.seek(offset)
        d = f.read() if count is None else f.read(count)
        self.sendall(d)
        return V.ENG.helpers and (d.hi - d.lo)

    def finish(self):
        if isinstance(sys.exc_info()[1], QUIET):
            return
        if not self.ended:
            if not self.gone:
                V.ENG.prove("the connection ends after the last byte of the movie", V.eq(self.sent, self.size))
                V.ENG.cover("a client served")
            self.ended = True

    def shutdown(self, how):
        if how != 0:
            self.finish()

    def close(self):
        self.finish()

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return ("192.168.1.1", 1024)

    def fileno(self):
        return 5

    def makefile(self, mode="r", *a, **kw):
        if "w" in mode:
            raise Unsupported("makefile(%r)" % mode)
        return types.SimpleNamespace(close=lambda: None, closed=False)


class Listener(EN.Ghost):
    def __init__(self, g):
        self.g, self.address, self.listening = g, None, False

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def setblocking(self, b):
        pass

    def bind(self, address):
        self.address = address

    def getsockname(self):
        return self.address

    def listen(self, n=0):
        if self.address is None:
            raise OSError("not bound")
        self.listening = True

    def fileno(self):
        return 3

    def accept(self):
        e = V.ENG
        if not self.listening:
            raise OSError("not listening")
        host, port = self.address
        e.prove("the server listens on the configured port of every interface", host in ("", "0.0.0.0") and
                V.eq(port, self.g.port))
        if bool(e.fresh_bool("aborted")):
            raise ConnectionAbortedError("connection aborted")
        return Client(self.g.size), ("192.168.1.1", 1024)

    def close(self):
        self.listening = False


class G21(EN.Ghost):
    def __init__(self, size, port):
        self.size, self.port = size, port


def program(state):
    class Selector(object):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def register(self, obj, events, data=None):
            self.obj = obj

        def unregister(self, obj):
            pass

        def select(self, timeout=None):
            return [("ready", 1)] if bool(V.ENG.fresh_bool("connection")) else []

        def close(self):
            pass

    class Event(object):
        def __init__(self):
            self.on = False

        def set(self):
            pass

        def clear(self):
            pass

        def wait(self, timeout=None):
            raise Unsupported("waiting for another thread")

        def is_set(self):
            return False

    class Thread(object):
        # handlers of concurrent clients share nothing but what the serving loop carries over: run in turn
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target, self.args, self.kwargs = target, args, kwargs or {}
            self.daemon = daemon

        def start(self):
            k, x = outcome(self.target, *self.args, **self.kwargs)

        def join(self, timeout=None):
            pass

        def __walk__(self, path, slots, sig, node):
            sig.append((path, "thread"))

        def is_alive(self):
            return False

    def sock(family=2, type=1, *a):
        if (family, type) != (2, 1):
            raise Unsupported("socket(%r, %r)" % (family, type))
        return Listener(state["g"])
    socket = env.mod("socket", socket=sock, AF_INET=2, AF_INET6=10, SOCK_STREAM=1, SOCK_DGRAM=2, SOL_SOCKET=1,
                     SO_REUSEADDR=2, SO_REUSEPORT=15, SO_SNDBUF=7, SO_KEEPALIVE=9, IPPROTO_TCP=6, TCP_NODELAY=1, SHUT_RD=0, SHUT_WR=1,
                     SHUT_RDWR=2, error=OSError, timeout=TimeoutError)

    def getsize(p):
        path(p)
        return state["g"].size

    def path(p):
        if p is not state["name"]:
            V.ENG.prove("only the movie file is opened", False, repr(p))
            raise FileNotFoundError(p)

    def opener(p, mode="r", *a, **kw):
        path(p)
        if mode not in ("rb", "br"):
            raise Unsupported("open mode %r" % mode)
        return FFile(state["g"].size)

    class SentinelIter(object):
        def __init__(self, f, stop):
            self.f, self.stop = f, stop

        def symiter(self):
            return self

        def __iter__(self):
            raise Unsupported("native iteration")

        def advance(self, act):
            V.ENG.symdec += 1
            x = self.f()
            if bool(x == self.stop):
                return False
            act.value = x
            return True

        def __walk__(self, path, slots, sig, node):
            sig.append((path, "sentinel"))

    def s_iter(x, *a):
        return SentinelIter(x, a[0]) if a else iter(x)
    sysm = env.mod("sys", stderr=None, stdout=None, argv=["server.py"], exit=sys.exit)
    prog = I.Program([REPO + "/server"], dict(
        socket=socket, selectors=env.mod("selectors", PollSelector=Selector, SelectSelector=Selector,
                                         DefaultSelector=Selector, EVENT_READ=1),
        threading=env.mod("threading", Event=Event, Thread=Thread, current_thread=lambda: None),
        os=env.mod("os", path=env.mod("os.path", getsize=getsize, exists=lambda p: p is state["name"],
                                      isfile=lambda p: p is state["name"])),
        sys=sysm, traceback=env.mod("traceback", print_exc=lambda *a, **k: None),
        functools=env.functools_stub()),
        {"builtins": {"open": opener, "iter": s_iter, "memoryview": lambda x: x}})
    m = types.ModuleType("socketserver")
    m.__dict__.update(prog.module_ns("socketserver", SOCKETSERVER))
    m.__dict__["__builtins__"]["list"] = list       # a base class there
    tree = I.transform(open(SOCKETSERVER).read(), "socketserver", SOCKETSERVER)
    prog.filenames.add(SOCKETSERVER)
    exec(compile(tree, SOCKETSERVER, "exec"), m.__dict__)
    prog.modules["socketserver"] = m
    prog.load("server")
    return prog


def h_serve(prog, state):
    server = prog.load("server")

    def f():
        e = V.ENG
        g = G21(e.fresh_int("size", 0, None), e.fresh_int("port", 1, 65535))
        name = Name()
        state.update(g=g, name=name)
        e.ghost_roots["g"] = g
        args = types.SimpleNamespace(input=name, port=g.port)
        k, x = outcome(server.main, args)
        e.prove("the server keeps serving", False, "main %s %r" % ("returns" if k == "ok" else "raises", x))
    return f


def check_options(chk, prog):
    p = prog.load("server").parser
    a = p.parse_args(["some movie.a2m", "--port", "4711"])
    b = p.parse_args(["/x/y"])
    chk.ob("the port option sets the port, the positional argument the file", (
        a.port == 4711 and a.input == "some movie.a2m" and b.input == "/x/y" and isinstance(b.port, int)),
        "%r %r" % (a, b))


def tasks21(chk):
    def serve(c):
        state = {}
        prog = program(state)
        e = prog.engine(c, "serve: ", max_paths=4000)
        e.run(h_serve(prog, state))
        c.ob("serve: clients are served", bool(e.cuts.get("cover:a client served")), "no client gets that far")
        check_options(c, prog)
    return [("serve", serve)]
