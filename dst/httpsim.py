"""A simulated web server behind the real urllib and http.client.

Connections are fake sockets; what happens to each one (refused, timed out,
reset, closed early, split into small segments, error pages, redirects, the
client ending or being interrupted while it waits) is listed in the plan."""
import http.client
import io
import os
import socket

from dst.sim import ProcessCrash

SERVER = None


class Server:
    """sites: url path -> list of versions (bytes); replies: url path -> fates of its requests, in order."""

    def __init__(self, sim, fs, replies=None):
        self.sim, self.fs = sim, fs
        self.sites = {}
        self.replies = replies or {}
        self.requests = []  # (node, path)
        self.served = {}  # node -> [(path, full body)]
        self.bad = 0
        self.chunked = set()

    def __enter__(self):
        global SERVER
        SERVER = self
        return self

    def __exit__(self, *a):
        global SERVER
        SERVER = None

    def next_fate(self, path):
        q = self.replies.get(path)
        return q.pop(0) if q else {"what": "ok"}


class Sock:
    def __init__(self, srv):
        self.srv = srv
        self.buf = b""
        self.reader = None

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def gettimeout(self):
        return None

    def fileno(self):
        return -1

    def sendall(self, data, flags=0):
        sim = self.srv.sim
        alive(self.srv)
        sim.point("net", "send")
        self.buf += bytes(data)
        if self.reader is None and b"\r\n\r\n" in self.buf:
            self.respond()

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def respond(self):
        srv = self.srv
        head = self.buf.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")
        method, path, _ = head[0].split(" ")
        hdr = {h.split(":", 1)[0].lower(): h.split(":", 1)[1].strip() for h in head[1:]}
        srv.requests.append((srv.fs.proc(), method, path))
        f = srv.next_fate(path)
        w = f["what"]
        if w == "reset-request":
            self.fault("reset-request")
            raise ConnectionResetError(104, "Connection reset by peer")
        cut, at_cut, start = None, None, 0
        if w == "nothing":
            self.fault("closed-without-answer")
            out, body = b"", b""
        elif w == "status":
            self.fault(f"http-{f['code']}")
            body = b"<html>error page</html>" * f.get("n", 1)
            out = f"HTTP/1.1 {f['code']} Sorry\r\nContent-Type: text/html\r\nContent-Length: {len(body)}\r\nConnection: close\r\n\r\n".encode()
        elif w == "redirect":
            self.fault("http-redirect")
            srv.redirects = path
            body = b"moved"
            out = (f"HTTP/1.1 {f['code']} Moved\r\nLocation: http://{hdr.get('host', 'h')}{path}\r\n"
                   f"Content-Length: {len(body)}\r\nConnection: close\r\n\r\n").encode()
        else:
            vs = srv.sites[path]
            full = vs[-1]
            body = b"" if method == "HEAD" else full
            srv.served.setdefault(srv.fs.proc(), []).append((path, full))
            tag = f'"v{len(vs)}"'
            code, extra = "200 OK", ""
            rng = hdr.get("range", "")
            if f.get("ranges") and rng.startswith("bytes=") and rng[6:].rstrip("-").isdigit() and hdr.get("if-range", tag) == tag:
                start = int(rng[6:].rstrip("-"))
                if start < len(full):
                    body = full[start:]
                    code, extra = "206 Partial Content", f"Content-Range: bytes {start}-{len(full) - 1}/{len(full)}\r\n"
                else:
                    body, code = b"", "416 Range Not Satisfiable"
            if path in srv.chunked:
                n = f.get("chunk", 1000)
                raw = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b"0\r\n\r\n"
                out = f"HTTP/1.1 {code}\r\nTransfer-Encoding: chunked\r\n{extra}ETag: {tag}\r\nConnection: close\r\n\r\n".encode()
                body = raw
            else:
                out = f"HTTP/1.1 {code}\r\nContent-Length: {len(body)}\r\n{extra}ETag: {tag}\r\nConnection: close\r\n\r\n".encode()
            if w in ("reset", "eof", "crash", "ki", "timeout-read"):
                cut = len(out) + min(int(f.get("frac", 0) * len(body)), max(len(body) - 1, 0))
                at_cut = w
                if not body:  # nothing left that could be lost
                    cut = at_cut = None
        self.reader = Reader(self, out + body, cut, at_cut, f.get("seg", 1460))

    def fault(self, name):
        self.srv.bad += 1
        self.srv.sim.fault(name)

    def makefile(self, mode="r", buffering=None, **k):
        return io.BufferedReader(self.reader if self.reader is not None else Reader(self, b"", None, None, 1), 512)

    def shutdown(self, how):
        pass

    def close(self):
        pass


def alive(srv):
    if srv.fs.crashed():
        raise ProcessCrash("already dead")


class Reader(io.RawIOBase):
    def __init__(self, sock, data, cut, at_cut, seg):
        self.sock, self.data, self.cut, self.at_cut, self.seg = sock, data, cut, at_cut, seg
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        srv = self.sock.srv
        sim = srv.sim
        alive(srv)
        sim.point("net", "recv")
        end = len(self.data) if self.cut is None else self.cut
        if self.pos >= end:
            w, self.at_cut = self.at_cut, "eof" if self.at_cut in ("reset", "eof") else None
            if w is None:
                return 0
            if w == "eof":
                self.sock.fault("connection-closed-early")
                self.at_cut = None
                return 0
            if w == "reset":
                self.sock.fault("connection-reset")
                raise ConnectionResetError(104, "Connection reset by peer")
            if w == "timeout-read":
                self.sock.fault("connection-stalled")
                sim.now += 900
                raise TimeoutError(110, "Connection timed out")
            if w == "ki":
                self.sock.fault("interrupted-while-receiving")
                raise KeyboardInterrupt()
            self.sock.fault("crash-while-receiving")
            srv.fs.die()
        n = min(len(b), self.seg, end - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        sim.now += 0.001
        return n


real_create = socket.create_connection


def _create(address, *a, **k):
    srv = SERVER
    if srv is None:
        raise OSError(101, "Network is unreachable")
    alive(srv)
    srv.sim.point("net", "connect")
    q = srv.connects
    f = q.pop(0) if q else None
    if f:
        srv.bad += 1
        srv.sim.fault("connect-" + f)
        if f == "refused":
            raise ConnectionRefusedError(111, "Connection refused")
        if f == "dns":
            raise socket.gaierror(-3, "Temporary failure in name resolution")
        if f == "timeout":
            srv.sim.now += 130
            raise TimeoutError(110, "Connection timed out")
    return Sock(srv)


def install():
    socket.create_connection = _create
    http.client.HTTPSConnection.connect = http.client.HTTPConnection.connect
    for v in list(os.environ):
        if v.lower().endswith("_proxy"):
            del os.environ[v]
    import tqdm

    class NoLock:
        def acquire(self, *a, **k):
            return True

        def release(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    tqdm.tqdm.monitor_interval = 0
    tqdm.tqdm.set_lock(NoLock())
