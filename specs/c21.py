"""C21: every client receives the complete movie file."""
from specs.common import *
from specs import server


def body(chk):
    par(chk, server.tasks21(chk))
    for f in ("server.main", "server.main.handler.ChunkHandler.handle", "socketserver.BaseServer.serve_forever",
              "socketserver.BaseServer._handle_request_noblock", "socketserver.BaseServer.process_request",
              "socketserver.BaseServer.finish_request", "socketserver.BaseServer.handle_error",
              "socketserver.BaseRequestHandler.__init__", "socketserver.TCPServer.__init__",
              "socketserver.TCPServer.server_bind", "socketserver.TCPServer.server_activate",
              "socketserver.TCPServer.get_request", "socketserver.TCPServer.shutdown_request",
              "socketserver.TCPServer.close_request"):
        chk.under_contract(f)
    chk.trust("pyvc: the symbolic interpreter of the instrumented Python source")
    chk.trust("z3 4.15 (cvc5 for obligations z3 leaves open)")
    chk.assume("contracts of the operating system: sendall transmits all bytes or raises, send a non-empty prefix; read(n) "
               "of a regular file is short only at its end; the file does not change while it is served")
    chk.assume("a client that disconnects is owed nothing more; the clients of a threaded server, should there be one, are "
               "handled in turn (the current server is sequential)")
    chk.assume("argparse stores the converted option values (executed for sample command lines)")


def run(tier):
    return execute("C21", tier, body, replay("server_fuzz.py", "C21"))
