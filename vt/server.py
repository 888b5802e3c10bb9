"""Drives one tt server process in a scratch directory: start, stop, kill, talk to it."""
import json
import math
import mmap
import os
import re
import shutil
import signal
import socket
import struct
import subprocess
import tempfile
import time

from . import build

START_LIMIT = 60.0
IO_LIMIT = float(os.environ.get("VT_IO_LIMIT", "60"))


class ServerDied(Exception):
    """The process ended, crashed or stopped answering while it was expected to serve."""


class StartFailed(Exception):
    """The server could not be started (not a port clash)."""


class HttpError(Exception):
    pass


def free_ports(n):
    socks = []
    for _ in range(n):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", 0))
        socks.append(s)
    ports = [s.getsockname()[1] for s in socks]
    for s in socks:
        s.close()
    return ports


class Ports:
    """Ports for this worker below the ephemeral range, so that no client socket takes them."""
    base = 10000
    span = 400
    cur = 0

    @classmethod
    def worker(cls, i):
        cls.base = 10000 + ((i + int(os.environ.get("VT_PORT_SHIFT", "0"))) % 50) * cls.span
        cls.cur = (os.getpid() * 7) % cls.span

    @classmethod
    def next(cls):
        for _ in range(cls.span * 2):
            cls.cur = (cls.cur + 1) % cls.span
            p = cls.base + cls.cur
            ok = True
            for typ in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                s = socket.socket(socket.AF_INET, typ)
                try:
                    s.bind(("0.0.0.0", p))
                except OSError:
                    ok = False
                finally:
                    s.close()
            if ok:
                return p
        raise RuntimeError("no free port")


class Response:
    __slots__ = ("status", "body", "headers")

    def __init__(self, status, body, headers):
        self.status, self.body, self.headers = status, body, headers

    def __repr__(self):
        return "<%s %r>" % (self.status, self.body[:300])


class Conn:
    """One keep-alive HTTP connection."""

    def __init__(self, port, limit=IO_LIMIT, probe=None):
        """probe: asked every second of waiting; a text means that there will be no answer."""
        self.limit, self.probe = limit, probe
        self.s = socket.create_connection(("127.0.0.1", port), timeout=limit)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass

    def send(self, data):
        self.s.sendall(data)

    def recv(self):
        if self.probe is None:
            return self.s.recv(1 << 20)
        end = time.monotonic() + self.limit
        self.s.settimeout(1.0)
        try:
            while True:
                try:
                    return self.s.recv(1 << 20)
                except socket.timeout:
                    text = self.probe()
                    if text:
                        raise ConnectionError(text)
                    if time.monotonic() > end:
                        raise
        finally:
            self.s.settimeout(self.limit)

    def recv_response(self):
        while b"\r\n\r\n" not in self.buf:
            d = self.recv()
            if not d:
                raise ConnectionError("closed before a full response: %r" % self.buf[:200])
            self.buf += d
        head, _, rest = self.buf.partition(b"\r\n\r\n")
        lines = head.split(b"\r\n")
        m = re.match(rb"HTTP/1\.\d (\d+)", lines[0])
        if not m:
            raise HttpError("bad status line %r" % lines[0])
        hdrs = {}
        for ln in lines[1:]:
            k, _, v = ln.partition(b":")
            hdrs[k.strip().lower().decode("latin1")] = v.strip().decode("latin1")
        n = int(hdrs.get("content-length", "0"))
        while len(rest) < n:
            d = self.recv()
            if not d:
                raise ConnectionError("closed inside a body")
            rest += d
        self.buf = rest[n:]
        return Response(int(m.group(1)), rest[:n], hdrs)

    def request(self, method, path, body=None, headers=()):
        if isinstance(body, str):
            body = body.encode()
        h = "%s %s HTTP/1.1\r\nHost: t\r\n" % (method, path)
        if body is not None:
            h += "Content-Length: %d\r\n" % len(body)
        for k, v in headers:
            h += "%s: %s\r\n" % (k, v)
        self.send(h.encode() + b"\r\n" + (body or b""))
        return self.recv_response()


_NUMTOK = re.compile(rb'(:\s*)(-?)(Inf|NaN|inf|nan)\b')


# NaN and infinities are returned as strings
_SPECIAL = {"NaN": math.nan, "Inf": math.inf, "-Inf": -math.inf}


def parse_json(body):
    """The server writes Inf and NaN, which are not JSON; everything else must be."""
    body = _NUMTOK.sub(lambda m: m.group(1) + (b"NaN" if m.group(3).lower() == b"nan" else m.group(2) + b"Infinity"), body)
    try:
        return json.loads(body)
    except ValueError as e:
        raise HttpError("not JSON (%s): %r" % (e, body[:300] + b" ... " + body[-100:]))


DEFAULTS = {
    "http.listener.count": 1,
    "http.responders.per.listener": 1,
    "tcp.listener.count": 2,
    "tcp.responders.per.listener": 1,
    "udp.server.enabled": "false",
    "log.level": "ERROR",
    "tsdb.timestamp.resolution": "millisecond",
    "append.log.flush.frequency": "10h",
    "tsdb.flush.frequency": "10h",
    "tsdb.rollup.frequency": "1000d",
    "tsdb.rotation.frequency": "1000d",
    "tsdb.rollup.pause": "0s",
    "tsdb.min.disk.space": 0,
    "stats.frequency": "1000d",
}


class Server:
    def __init__(self, conf=None, variant="rel", shim=True, root=None, keep=False, env=None):
        self.conf = dict(DEFAULTS)
        self.conf.update(conf or {})
        self.variant = variant
        self.exe = build_exe(variant)
        self.shim = shim
        self.root = root or tempfile.mkdtemp(prefix="vt-", dir=scratch_base())
        self.keep = keep
        self.proc = None
        self.conn = None
        self.env = env or {}
        self.starts = 0
        self.last_out = ""
        self.ctl_path = os.path.join(self.root, "ctl")
        with open(self.ctl_path, "wb") as f:
            f.write(b"\0" * 4096)
        self._f = open(self.ctl_path, "r+b")
        self.ctl = mmap.mmap(self._f.fileno(), 4096)
        self.set_ctl(max_sleep_ns=20_000_000)
        self.extra_args = []

    # control page -------------------------------------------------------------
    FIELDS = dict(time_offset_ns=0, max_sleep_ns=8, countdown=16, events=24, crashed=32, mask=40, freeze_ns=48,
                  delay_every=56, delay_ns=64, delay_seed=72, delays=80, delay_kinds=88)

    def set_ctl(self, **kw):
        for k, v in kw.items():
            struct.pack_into("<q", self.ctl, self.FIELDS[k], v)

    def set_now(self, epoch_s):
        """The server's clock continues from this instant."""
        self.set_ctl(time_offset_ns=epoch_s * 1_000_000_000 - time.time_ns())

    def advance(self, secs):
        self.set_ctl(time_offset_ns=self.get_ctl("time_offset_ns") + int(secs * 1_000_000_000))

    def get_ctl(self, k):
        return struct.unpack_from("<q", self.ctl, self.FIELDS[k])[0]

    # life cycle ---------------------------------------------------------------
    @property
    def data_dir(self):
        return os.path.join(self.root, "data")

    def write_conf(self):
        c = dict(self.conf)
        c["ticktock.home"] = self.root
        c["log.file"] = os.path.join(self.root, "tt.log")
        c["http.server.port"] = "%d" % self.http_port
        c["tcp.server.port"] = "%d,%d" % (self.tcp_port, self.line_port)
        c["udp.server.port"] = self.udp_port
        with open(os.path.join(self.root, "tt.conf"), "w") as f:
            for k in sorted(c):
                f.write("%s = %s\n" % (k, c[k]))

    def start(self, wait=True, kill_at=0):
        """Starts and waits until the server serves. With kill_at, returns whether it got that far."""
        for attempt in range(5):
            self.http_port, self.tcp_port, self.line_port, self.udp_port = [Ports.next() for _ in range(4)]
            self.write_conf()
            self.set_ctl(crashed=0, countdown=kill_at)
            env = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "HOME": self.root,
                   "ASAN_OPTIONS": "handle_segv=2:handle_abort=2:handle_sigbus=2:handle_sigfpe=2:detect_leaks=0:abort_on_error=0:exitcode=77:"
                                   "allocator_may_return_null=1:detect_stack_use_after_return=0"}
            if self.shim:
                so = build_shim(self.variant)
                env["LD_PRELOAD"] = so
                env["VT_CTL"] = self.ctl_path
                if self.variant == "asan":
                    env["ASAN_OPTIONS"] += ":verify_asan_link_order=0"
            env.update(self.env)
            self.outf = open(os.path.join(self.root, "out.%d" % self.starts), "wb+")
            self.starts += 1
            self.proc = subprocess.Popen([self.exe, "-c", os.path.join(self.root, "tt.conf"), "-p",
                                          os.path.join(self.root, "tt.pid"), "-r"] + self.extra_args,
                                         cwd=self.root, stdin=subprocess.DEVNULL, stdout=self.outf,
                                         stderr=self.outf, env=env)
            if not wait:
                return self
            t0 = time.monotonic()
            while True:
                if self.proc.poll() is not None:
                    break
                try:
                    self.conn = Conn(self.http_port, probe=self.failure)
                    break
                except (ConnectionError, OSError):
                    pass
                if time.monotonic() - t0 > START_LIMIT:
                    out = self.output()
                    self.kill()
                    raise StartFailed("not serving after %ds: %s" % (START_LIMIT, out[-1500:]))
                time.sleep(0.002)
            if self.get_ctl("crashed"):
                return False
            if self.proc.poll() is None:
                return True if kill_at else self
            out = self.output()
            if "bind" in out or "in use" in out:
                continue
            raise StartFailed("exit code %s: %s" % (self.proc.returncode, out[-3000:]))
        raise RuntimeError("no usable ports")

    def output(self):
        try:
            self.outf.flush()
            with open(self.outf.name, "rb") as f:
                return f.read().decode("latin1")
        except (OSError, ValueError):
            return ""

    def crashed_text(self):
        """Non-empty when the process reported an internal failure."""
        out = self.output()
        for pat in (r"ERROR: AddressSanitizer[^\n]*", r"runtime error:[^\n]*", r"Interrupted \((?!2\)|15\))\d+\)[^\n]*",
                    r"terminate called[^\n]*", r"Uncaught exception[^\n]*", r"Unknown exception"):
            m = re.search(pat, out)
            if m:
                return m.group(0)
        return ""

    def failure(self):
        """Non-empty when a server that is to answer will not: any signal but a kill leaves a stack trace."""
        m = re.search(r"/tt\(_ZN2tt[^\n]*(\n[^\n]*){0,4}", self.output())
        rc = self.proc.poll() if self.proc is not None else None
        return self.crashed_text() or (m.group(0) if m else "") or ("exit code %d" % rc if rc is not None else "")

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def wait_handler(self, sig):
        """The server starts serving shortly before it is ready to be signalled."""
        for _ in range(2000):
            try:
                with open("/proc/%d/status" % self.proc.pid) as f:
                    m = re.search(r"SigCgt:\s*([0-9a-f]+)", f.read())
            except OSError:
                return
            if m and int(m.group(1), 16) >> (sig - 1) & 1:
                return
            time.sleep(0.002)

    def stop(self, how="term", limit=60.0):
        """Graceful stop; raises ServerDied if the process does not end cleanly."""
        self.close_conn()
        if self.proc is None:
            return
        early = self.proc.poll()
        if early is not None:
            txt = self.crashed_text() or self.output()[-800:]
            self.proc = None
            raise ServerDied("process was already gone, exit code %s: %s" % (early, txt))
        if how == "admin":
            try:
                c = Conn(self.http_port)
                c.request("POST", "/api/admin?cmd=stop")
                c.close()
            except (OSError, HttpError) as e:
                raise ServerDied("stop request failed: %s" % e)
        else:
            sig = signal.SIGINT if how == "int" else signal.SIGTERM
            self.wait_handler(sig)
            self.proc.send_signal(sig)
        try:
            rc = self.proc.wait(limit)
        except subprocess.TimeoutExpired:
            txt = self.crashed_text()
            self.kill()
            raise ServerDied("did not stop within %ds %s" % (limit, txt))
        self.proc = None
        txt = self.crashed_text()
        if txt or rc != 0:
            raise ServerDied("exit code %s at shutdown: %s" % (rc, txt or self.output()[-800:]))

    def kill(self):
        self.close_conn()
        if self.proc is not None:
            if self.proc.poll() is None:
                self.proc.kill()
            self.proc.wait()
            self.proc = None

    def close_conn(self):
        if self.conn is not None:
            self.conn.close()
            self.conn = None

    def restart(self, how="term"):
        self.stop(how)
        self.start()

    def destroy(self):
        self.kill()
        try:
            self.ctl.close()
            self._f.close()
            self.outf.close()
        except (AttributeError, OSError, ValueError, BufferError):
            pass
        if not self.keep:
            base = scratch_base()
            if os.path.dirname(self.root) == base and os.path.basename(self.root).startswith("vt-"):
                shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.destroy()

    # talking ------------------------------------------------------------------
    def died(self, e):
        # an abort is not instantaneous: give the process a moment to finish reporting
        t0 = time.monotonic()
        while time.monotonic() - t0 < 2 and self.proc is not None and self.proc.poll() is None and self.crashed_text() == "":
            if isinstance(e, socket.timeout):
                break
            time.sleep(0.05)
        rc = self.proc.poll() if self.proc is not None else None
        return ServerDied("%s: %s; exit code %s; %s" % (type(e).__name__, e, rc, self.crashed_text() or self.output()[-500:]))

    def request(self, method, path, body=None, headers=()):
        try:
            if self.conn is None:
                self.conn = Conn(self.http_port, probe=self.failure)
            return self.conn.request(method, path, body, headers)
        except (OSError, ConnectionError) as e:
            self.close_conn()
            raise self.died(e)

    def post(self, path, body, headers=()):
        return self.request("POST", path, body, headers)

    def get(self, path):
        return self.request("GET", path)

    def put_plain(self, text):
        return self.post("/api/put", text)

    def put_json(self, dps):
        return self.post("/api/put", json.dumps(dps), [("Content-Type", "application/json")])

    def write_line(self, text):
        return self.post("/api/write", text)

    def query(self, q):
        r = self.post("/api/query", json.dumps(q), [("Content-Type", "application/json")])
        if r.status != 200:
            raise HttpError("query %s -> %s" % (json.dumps(q), r))
        return parse_json(r.body)

    def admin(self, cmd, **params):
        p = "/api/admin?cmd=" + cmd + "".join("&%s=%s" % kv for kv in params.items())
        return self.request("POST", p)

    def raw(self, metric, start, end, tags=None, ms=True):
        """Raw points of every series of a metric: {frozenset(tags): {ts: value}}"""
        sub = {"metric": metric, "aggregator": "none", "rollupUsage": "ROLLUP_RAW"}
        if tags:
            sub["tags"] = tags
        res = self.query({"start": start, "end": end, "msResolution": ms, "queries": [sub]})
        out = {}
        for s in res:
            key = frozenset(s["tags"].items())
            if key in out:
                raise HttpError("series %r listed twice in one answer" % sorted(key))
            out[key] = {int(t): _SPECIAL.get(v, v) for t, v in s["dps"].items()}
        return out

    def telnet(self, which="tcp", limit=IO_LIMIT):
        port = self.tcp_port if which == "tcp" else self.line_port
        t0 = time.monotonic()
        while True:
            try:
                s = socket.create_connection(("127.0.0.1", port), timeout=limit)
                break
            except ConnectionRefusedError:
                # HTTP is served a moment before the other ports are
                if not self.alive() or time.monotonic() - t0 > limit:
                    raise ServerDied("no connection on the %s port: %s" % (which, self.failure()))
                time.sleep(0.002)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    def udp(self, line):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.sendto(line.encode() if isinstance(line, str) else line, ("127.0.0.1", self.udp_port))
        s.close()


_exe = {}
_so = {}


def build_exe(variant):
    if variant not in _exe:
        _exe[variant] = build.server(variant)
    return _exe[variant]


def build_shim(variant="rel"):
    if variant not in _so:
        _so[variant] = build.shim(variant)
    return _so[variant]


_base = None


def scratch_base():
    global _base
    if _base is None:
        _base = os.environ.get("VT_SCRATCH") or tempfile.gettempdir()
    return _base
