"""Falsifier for C21: the real server on the loopback network with clients that read at different paces or leave."""
import os
import socket
import struct
import sys
import tempfile
import threading
import time
import lib
from lib import fail
sys.path.insert(0, os.path.join(lib.REPO, "server"))
sys.stdout = open(os.devnull, "w")
sys.stderr = open(os.devnull, "w")
import server

R = lib.rnd()
full_send = socket.socket.send


def short_send(self, data, flags=0):
    """send() may transmit less than it was given."""
    return full_send(self, bytes(data[:R.randint(1, 30000)]), flags)


socket.socket.send = short_send


def content(n):
    if n == 0:
        return b""
    b = bytes(R.randrange(256) for _ in range(min(n, 5000)))
    k = (b * (n // len(b) + 1))[:n]
    # every block is different
    out = bytearray(k)
    for i in range(0, n - 4, 997):
        out[i:i + 4] = struct.pack(">I", i)
    return bytes(out)


def connect(port, rcvbuf=None):
    host = R.choice(("127.0.0.1", "127.0.0.2"))
    for _ in range(100):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(20)
        try:
            s.connect((host, port))
            return s
        except OSError:
            s.close()
            time.sleep(0.05)
    fail("nothing listens on the configured port at %s" % host)


def drain(s, slow=False):
    out = []
    n = 0
    while True:
        try:
            d = s.recv(65536)
        except OSError as e:
            return b"".join(out), repr(e)
        if not d:
            return b"".join(out), None
        out.append(d)
        n += 1
        if slow and n < 12:
            time.sleep(slow if n == 3 else 0.05)


def check(got, want, size, what):
    data, err = got
    if data != want:
        at = next((i for i, (x, y) in enumerate(zip(data, want)) if x != y), min(len(data), len(want)))
        fail("%s receives %d bytes of a movie of %d bytes, the first difference is at %d" % (
            what, len(data), size, at), error=err)


def session(size):
    d = tempfile.mkdtemp(prefix="c21")
    name = os.path.join(d, "a movie.v2.a2m")
    data = content(size)
    with open(name, "wb") as f:
        f.write(data)
    p = socket.socket()
    p.bind(("127.0.0.1", 0))
    port = p.getsockname()[1]
    p.close()
    args = server.parser.parse_args([name, "--port", str(port)])

    def serve():
        try:
            server.main(args)
        except BaseException as e:
            died.append(repr(e))
    died = []
    t = threading.Thread(target=serve, daemon=True)
    t.start()
    try:
        s = connect(port)
        check(drain(s), data, size, "the first client")
        s.close()
        # a client that leaves in the middle
        s = connect(port)
        try:
            s.recv(10)
        except OSError as e:
            fail("a client is not served: %r" % e)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
        s = connect(port)
        check(drain(s), data, size, "a client after one that left")
        s.close()
        # a slow client with a small buffer while another one waits
        a = connect(port, 4096)
        b = connect(port)
        time.sleep(0.3)
        check(drain(a, slow=12 if size == 5000001 else 0.1), data, size, "a slow client")
        a.close()
        check(drain(b), data, size, "a client connected at the same time as another")
        b.close()
        if died:
            fail("the server stops: %s" % died[0])
    finally:
        os.unlink(name)
        os.rmdir(d)


for m in lib.model_inputs():
    n = m.get("vars", {}).get("size", 0)
    if 0 <= n < 1 << 25:
        session(int(n))
for size in (0, 1, 255, 1460, 4096, 65535, 65536, 65537, 200000, 1 << 20, (1 << 20) + 1, 5000001):
    session(size)
