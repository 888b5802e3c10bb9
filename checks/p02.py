"""P02: cutting requests and streams into network segments changes nothing."""
import json
import random
import re
import socket
import struct
import time
import zlib

from vt import hist, model as M
from vt.hist import World, NOW, DAY
from vt.runner import Violation
from vt.server import Conn, HttpError, ServerDied, parse_json

ID = "P02"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing of the wire: generated requests and line streams on several connections are cut at generated bytes and their "
             "pieces interleaved by a generated schedule; answers and stored points are compared with those of the uncut requests (reference model)")
LEVEL_NOTE = ("Up to 10 connections at a time, up to 12 requests per connection, up to 60 cuts per request or stream, cuts anywhere in request line, "
              "headers and body, network buffers of 16 to 512 KB; the server is seen to have taken a piece before the next one is sent, or not, by choice.")
RULE = "a case counts when at least 5 requests or streams were cut at least once and everything sent was compared"
N = {"quick": 500, "thorough": 5000}
SHRINK = ["conns", "conns.*.msgs", "conns.*.msgs.*.cuts"]
PATIENCE = 40.0


def gen_msg(rng, kind, c, no, big):
    n = rng.choice([1, 1, 3, 10, 40])
    if big and kind != "http":
        n = rng.choice([100, 400, 1500])
    pts = [[rng.randrange(3), no * 2000 + k, rng.randint(-9999, 9999)] for k in range(n)]
    m = {"pts": pts}
    if kind == "http":
        # an answer has to fit the network buffer
        m["what"] = rng.choice(["plain", "plain", "json", "json", "line", "gzip", "suggest"] + ([] if big else ["query", "get"]))
        m["hdr"] = rng.sample(["id", "accept", "type", "agent", "longid"], rng.choice([0, 0, 1, 2, 3]))
        m["close"] = rng.random() < 0.05
    style = rng.random()
    k = rng.choice([0, 1, 1, 2, 3, 8, 20, 60])
    # a cut is a fraction of the message, in parts of a million, or a byte from its start
    if style < 0.5:
        m["cuts"] = [["f", rng.randrange(1000000)] for _ in range(k)]
    elif style < 0.8:
        m["cuts"] = [["b", rng.randint(1, 160)] for _ in range(k)]
    else:
        m["cuts"] = [["p", rng.choice(["\r\n\r\n", "\r\n", "\n", " ", "Content-Length: ", "?", "put ", "{", "}", "X-Request-ID: "]),
                      rng.randint(0, 6), rng.randint(0, 4)] for _ in range(k)]
    m["wait"] = rng.choice(["seen", "seen", "seen", "none", "some"])
    return m


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    conf["http.listener.count"] = rng.choice([1, 2, 3])
    conf["http.responders.per.listener"] = rng.choice([1, 2])
    conf["tcp.listener.count"] = rng.choice([1, 2, 3])
    conf["tcp.responders.per.listener"] = rng.choice([1, 2])
    big = rng.random() < 0.25
    if big:
        conf["tcp.buffer.size"] = rng.choice(["16kb", "32kb", "64kb"])
    conns = []
    for c in range(rng.choice([1, 1, 2, 4, 10])):
        kind = rng.choice(["http", "http", "tcp", "line"])
        n = rng.choice([1, 2, 5, 12])
        if big:
            n = min(n, 5)
        conns.append({"kind": kind, "msgs": [gen_msg(rng, kind, c, no, big) for no in range(n)]})
    return {"conf": conf, "conns": conns, "seed": rng.randint(0, 1 << 30)}


def cut_at(data, cuts):
    at = set()
    for c in cuts:
        if c[0] == "f":
            at.add(1 + c[1] * (len(data) - 1) // 1000000 if len(data) > 1 else 0)
        elif c[0] == "b":
            at.add(c[1])
        else:
            hits = [m.start() for m in re.finditer(re.escape(c[1].encode()), data)]
            if hits:
                at.add(hits[c[2] % len(hits)] + min(c[3], len(c[1])))
    at = sorted(x for x in at if 0 < x < len(data))
    out, p = [], 0
    for x in at + [len(data)]:
        out.append(data[p:x])
        p = x
    return out


def taken(pid, sport, lport):
    """Whether the server's socket has nothing left to read."""
    pat = ":%04X" % sport
    pat2 = ":%04X" % lport
    with open("/proc/%d/net/tcp" % pid) as f:
        for ln in f:
            w = ln.split()
            if len(w) > 4 and w[1].endswith(pat) and w[2].endswith(pat2):
                return w[4].split(":")[1] == "00000000"
    return True


class Link:
    """One connection and what is still to be sent on it."""

    def __init__(self, w, no, spec, rng):
        self.w, self.no, self.kind, self.rng = w, no, spec["kind"], rng
        self.msgs = list(spec["msgs"])
        self.pieces, self.s, self.buf = [], None, b""
        self.wait, self.msg, self.check = "none", None, None
        self.cut = 0
        self.metric = "c%d" % no
        self.unit = 1000 if w.ms else 1
        self.base = (NOW - DAY // 2) * self.unit

    def series(self, j):
        return {"m": self.metric, "t": {"j": "s%d" % j}}

    def connect(self):
        if self.kind == "http":
            self.s = socket.create_connection(("127.0.0.1", self.w.sv.http_port), timeout=60)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.port = self.w.sv.http_port
        else:
            self.s = self.w.sv.telnet(self.kind)
            self.port = self.w.sv.tcp_port if self.kind == "tcp" else self.w.sv.line_port
        self.lport = self.s.getsockname()[1]

    def close(self):
        if self.s is not None:
            self.s.close()
            self.s = None

    def done(self):
        return not self.msgs and not self.pieces and self.check is None

    def point(self, p):
        return self.series(p[0]), self.base + p[1] * self.unit, p[2]

    def put_lines(self, pts):
        return "".join(hist.put_line(*self.point(p)) + "\n" for p in pts)

    def ilp(self, pts):
        out = []
        for p in pts:
            s, t, v = self.point(p)
            out.append("%s,j=%s f=%d %d\n" % (s["m"], s["t"]["j"], v, t))
        return "".join(out)

    def store(self, pts, field):
        for p in pts:
            s, t, v = self.point(p)
            if field:
                s["t"]["_field"] = "f"
            self.w.model.put(s, t, float(v))

    def next_msg(self):
        m = self.msg = self.msgs.pop(0)
        if self.s is None:
            self.connect()
        if self.kind == "tcp":
            data = self.put_lines(m["pts"]).encode()
            self.store(m["pts"], False)
        elif self.kind == "line":
            data = self.ilp(m["pts"]).encode()
            self.store(m["pts"], True)
        else:
            data = self.http(m)
        self.pieces = cut_at(data, m["cuts"])
        self.cut += len(self.pieces) > 1
        self.w.sent += 1
        self.w.cut += len(self.pieces) > 1

    def http(self, m):
        what, body, method, path, hdrs = m["what"], None, "POST", "/api/put", []
        self.rid = None
        if "accept" in m["hdr"]:
            hdrs.append("Accept: */*")
        if "agent" in m["hdr"]:
            hdrs.append("User-Agent: Cut/1.0 (P; C)")
        if "id" in m["hdr"] or "longid" in m["hdr"]:
            self.rid = "r%d-%d" % (self.no, len(self.msgs))
            if "longid" in m["hdr"]:
                self.rid += "x" * 40
            hdrs.append("X-Request-ID: " + self.rid)
        pts = m["pts"]
        if what in ("plain", "gzip"):
            body = self.put_lines(pts).encode()
            if what == "gzip":
                c = zlib.compressobj(6, zlib.DEFLATED, 31)
                body = c.compress(body) + c.flush()
                hdrs.append("Content-Encoding: gzip")
        elif what == "json":
            body = json.dumps([hist.json_dp(*self.point(p)) for p in pts]).encode()
            hdrs.append("Content-Type: application/json")
        elif what == "line":
            body, path = self.ilp(pts).encode(), "/api/write"
        elif what == "query":
            body = json.dumps({"start": self.base - 1, "end": self.base + DAY * self.unit // 2, "msResolution": self.w.ms,
                               "queries": [{"metric": self.metric, "aggregator": "none"}]}).encode()
            path = "/api/query"
        elif what == "get":
            method = "GET"
            path = "/api/query?start=%d&end=%d&m=none:%s%s" % (self.base - 1, self.base + DAY * self.unit // 2, self.metric,
                                                              "&msResolution=true" if self.w.ms else "")
        else:
            method, path = "GET", "/api/suggest?type=tagv&q=s&max=100"
        if what in ("plain", "json", "gzip", "line"):
            self.store(pts, what == "line")
        if m["close"]:
            hdrs.append("Connection: close")
        self.rng.shuffle(hdrs)
        hdrs.insert(self.rng.randint(0, len(hdrs)), "Host: localhost")
        if body is not None:
            hdrs.insert(self.rng.randint(0, len(hdrs)), "Content-Length: %d" % len(body))
        self.check = what
        # what the uncut request would find
        self.expect = {k: dict(p) for k, p in self.w.model.of_metric(self.metric).items()}
        return ("%s %s HTTP/1.1\r\n%s\r\n\r\n" % (method, path, "\r\n".join(hdrs))).encode() + (body or b"")

    def step(self):
        """Sends one piece or takes one answer."""
        if not self.pieces and self.check is None:
            if not self.msgs:
                return
            self.next_msg()
        if self.pieces:
            self.s.sendall(self.pieces.pop(0))
            wt = self.msg["wait"]
            if self.pieces and (wt == "seen" or (wt == "some" and self.rng.random() < 0.5)):
                t0 = time.monotonic()
                while not taken(self.w.sv.proc.pid, self.port, self.lport) and time.monotonic() - t0 < 5:
                    if not self.w.sv.alive():
                        raise ServerDied("process ended: %s" % self.w.sv.failure())
                    time.sleep(0.0005)
                if self.rng.random() < 0.3:
                    time.sleep(0.001)
        elif self.check is not None:
            self.answer()

    def answer(self):
        c = Conn.__new__(Conn)
        c.s, c.buf, c.limit, c.probe = self.s, b"", PATIENCE, self.w.sv.failure
        what, self.check = self.check, None
        desc = "connection %d, %s request in %d pieces" % (self.no, what, len(cut_at(b"x" * 1000, self.msg["cuts"])))
        try:
            r = c.recv_response()
        except (OSError, HttpError, ConnectionError) as e:
            raise Violation("%s: no answer: %s %s" % (desc, e, self.w.sv.failure()))
        if r.status != 200:
            raise Violation("%s answered %s" % (desc, r))
        if c.buf:
            raise Violation("%s: bytes after the answer: %r" % (desc, c.buf[:100]))
        got = r.headers.get("x-request-id")
        if got != self.rid:
            raise Violation("%s: request id %r came back as %r" % (desc, self.rid, got))
        if what in ("query", "get"):
            ans = {frozenset(s["tags"].items()): {int(t): v for t, v in s["dps"].items()} for s in parse_json(r.body)}
            M.expect_series(self.expect, ans, desc + ": ", self.w.close, self.expect)
        elif what == "suggest":
            if not isinstance(parse_json(r.body), list):
                raise Violation("%s answered %s" % (desc, r))
        if self.msg["close"]:
            self.close()


def compare(w):
    """All points, a few hundred at a time so that the answers fit small buffers."""
    lo, hi = w.span()
    unit = 1000 if w.ms else 1
    step = 200 * unit if "tcp.buffer.size" in w.case["conf"] else hi - lo + 1
    while lo <= hi:
        w.check_raw(lo=lo, hi=min(hi, lo + step - 1))
        lo += step


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        w.sent = w.cut = 0
        rng = random.Random(case["seed"])
        links = [Link(w, k, c, random.Random("%d/%d" % (case["seed"], k))) for k, c in enumerate(case["conns"])]
        try:
            while True:
                live = [x for x in links if not x.done()]
                if not live:
                    break
                x = rng.choice(live)
                for _ in range(rng.choice([1, 1, 2, 5])):
                    x.step()
            # lines are stored a moment after they are sent
            t0 = time.monotonic()
            wait = 0.001
            while True:
                try:
                    compare(w)
                    break
                except Violation:
                    if time.monotonic() - t0 > PATIENCE or not any(x.kind != "http" for x in links):
                        raise
                time.sleep(wait)
                wait = min(0.2, wait * 2)
        finally:
            for x in links:
                x.close()
        w.sv.stop()
        ctx.label("sent", w.sent)
        ctx.label("cut", w.cut)
        ctx.nontrivial = w.cut >= 5
