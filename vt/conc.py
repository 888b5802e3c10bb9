"""Concurrent client programs: run, record when every request was sent and answered, judge afterwards.

The oracle knows only the recorded intervals. A write that was answered before a query was sent must be
in the query's answer; a write that was sent after the answer arrived must not; in between both are right.
Among several writes of one point any that was not certainly overwritten is right.
"""
import json
import socket
import threading
import time

from . import hist
from . import model as M
from .runner import Violation
from .server import Conn, HttpError, parse_json

INF = float("inf")


class Rec:
    """What happened to one request."""
    __slots__ = ("op", "client", "start", "end", "status", "body", "error")

    def __init__(self, op, client):
        self.op, self.client = op, client
        self.start = self.end = INF
        self.status = self.body = self.error = None


def render(series, op):
    """(method, path, body, headers) of an operation."""
    k = op["op"]
    if k == "put":
        via, pts = op["via"], op["pts"]
        if via == "json":
            return ("POST", "/api/put", json.dumps([hist.json_dp(series[i], t, v) for i, t, v in pts]), [("Content-Type", "application/json")])
        if via == "line":
            return ("POST", "/api/write", "".join(hist.ilp_line(series[i], t, v, True) + "\n" for i, t, v in pts), [])
        return ("POST", "/api/put", "".join(hist.put_line(series[i], t, v) + "\n" for i, t, v in pts), [])
    if k == "query":
        sub = {"metric": op["m"], "aggregator": "none", "rollupUsage": "ROLLUP_RAW"}
        if op.get("tags"):
            sub["tags"] = op["tags"]
        return ("POST", "/api/query", json.dumps({"start": op["lo"], "end": op["hi"], "msResolution": True, "queries": [sub]}),
                [("Content-Type", "application/json")])
    if k == "ask":
        return ("POST", "/api/query", json.dumps(op["q"]), [("Content-Type", "application/json")])
    if k == "admin":
        return ("POST", "/api/admin?cmd=" + op["cmd"], None, [])
    if k == "get":
        return ("GET", op["path"], None, [])
    raise ValueError(k)


class Crew:
    """Clients that run their programs at the same time."""

    def __init__(self, w, programs, stop_ok=False):
        self.w, self.programs, self.stop_ok = w, programs, stop_ok
        self.recs = []
        self.lock = threading.Lock()
        self.going = True
        self.failed = None
        self.barrier = threading.Barrier(len(programs))
        self.stopped = None         # when the server was asked to stop
        self.early = None           # what went wrong before that
        self.answered = 0

    def client(self, n, prog):
        sv = self.w.sv
        mine = []
        conn = tcp = None
        try:
            conn = Conn(sv.http_port, probe=sv.failure)
            # the requests are made up beforehand so that clients are quick
            prepared = [None if op["op"] in ("sync", "sleep") or op.get("via") == "tcp" else self.wire(op) for op in prog]
            self.barrier.wait(150)
            for op, data in zip(prog, prepared):
                if not self.going:
                    break
                if op["op"] == "sync":
                    self.barrier.wait(150)
                    continue
                if op["op"] == "sleep":
                    time.sleep(op["us"] / 1e6)
                    continue
                r = Rec(op, n)
                mine.append(r)
                if op.get("via") == "tcp":
                    if tcp is None:
                        tcp = sv.telnet("tcp")
                    r.start = time.monotonic()
                    tcp.sendall("".join(hist.put_line(self.w.series[i], t, v) + "\n" for i, t, v in op["pts"]).encode())
                    continue
                r.start = time.monotonic()
                conn.send(data)
                a = conn.recv_response()
                r.end = time.monotonic()
                r.status, r.body = a.status, a.body
                self.answered += 1
        except (OSError, ConnectionError, HttpError, threading.BrokenBarrierError) as e:
            self.barrier.abort()
            if mine:
                mine[-1].error = e
            if self.failed is None or isinstance(self.failed, threading.BrokenBarrierError):
                self.failed = e
            if self.stop_ok and self.stopped is None and not isinstance(e, threading.BrokenBarrierError):
                self.early = e
        except BaseException as e:
            self.barrier.abort()
            self.failed = e
        finally:
            for c in (conn, tcp):
                if c is not None:
                    c.close()
            with self.lock:
                self.recs += mine

    def wire(self, op):
        method, path, body, headers = render(self.w.series, op)
        body = body.encode() if body is not None else None
        h = "%s %s HTTP/1.1\r\nHost: t\r\n" % (method, path)
        if body is not None:
            h += "Content-Length: %d\r\n" % len(body)
        for k, v in headers:
            h += "%s: %s\r\n" % (k, v)
        return h.encode() + b"\r\n" + (body or b"")

    def start(self):
        self.threads = [threading.Thread(target=self.client, args=(n, p), daemon=True) for n, p in enumerate(self.programs)]
        for t in self.threads:
            t.start()

    def join(self):
        for t in self.threads:
            t.join(180)
        if any(t.is_alive() for t in self.threads):
            raise Violation("clients are still waiting for answers: %s" % self.w.sv.failure())
        if self.failed is not None and not self.stop_ok:
            if isinstance(self.failed, (OSError, ConnectionError)):
                raise self.w.sv.died(self.failed)
            if isinstance(self.failed, threading.BrokenBarrierError):
                raise Violation("clients are still waiting for answers: %s" % self.w.sv.failure())
            raise self.failed

    def run(self):
        self.start()
        self.join()


class Writes:
    """All writes of a history: {(series key, time): [(start, end, value)]}"""

    def __init__(self, series):
        self.series = series
        self.d = {}

    def add(self, recs):
        for r in recs:
            if r.op["op"] == "put":
                for i, t, v in r.op["pts"]:
                    self.d.setdefault(M.skey(self.series[i]), {}).setdefault(t, []).append((r.start, r.end, float(v)))

    def allowed(self, ws, start, end):
        """(must be there, values) of a point for a query in flight during [start, end]."""
        before = [w for w in ws if w[1] < start]
        latest = max((w[0] for w in before), default=-INF)
        # a write that ended before another one began that itself was over is gone
        vals = [w[2] for w in ws if w[0] <= end and not (w[1] < latest)]
        return bool(before), vals

    def judge(self, got, metric, tags, lo, hi, start, end, same, what):
        """got: {tag set: {time: value}}"""
        seen = 0
        for key, pts in self.d.items():
            if key[0] != metric or (tags and not set(tags.items()) <= key[1]):
                continue
            g = got.get(key[1], {})
            for t, ws in pts.items():
                if not lo <= t <= hi:
                    continue
                must, vals = self.allowed(ws, start, end)
                if t in g:
                    seen += 1
                    if not any(same(v, g[t]) for v in vals):
                        raise Violation("%sseries %s %s at %d: got %r, expected %s" % (
                            what, metric, sorted(key[1]), t, g[t], ("one of %r" % sorted(set(vals))[:8]) if vals else "nothing yet"))
                elif must:
                    raise Violation("%sseries %s %s: point at %d is missing, answered before the query was sent (%d of %d points there)" % (
                        what, metric, sorted(key[1]), t, len(g), len(pts)))
            for t in g:
                if t not in pts or not lo <= t <= hi:
                    raise Violation("%sseries %s %s: point at %d with value %r was never written" % (what, metric, sorted(key[1]), t, g[t]))
        for tg, g in got.items():
            if g and (metric, tg) not in self.d:
                raise Violation("%sseries %s %s was never written" % (what, metric, sorted(tg)))
        return seen


def answer(body, what):
    """{tag set: {time: value}} of a raw query's answer"""
    out = {}
    for s in parse_json(body):
        key = frozenset(s["tags"].items())
        if key in out:
            raise Violation("%sseries %r listed twice in one answer" % (what, sorted(key)))
        dps = s["dps"]
        out[key] = {int(t): v for t, v in dps.items()}
        if body.count(b"dps") == 1 and len(dps) != body.count(b":", body.index(b'"dps"') + 6):
            raise Violation("%sa time is listed twice for series %r" % (what, sorted(key)))
    return out


def judge_all(w, recs, same, writes=None):
    """Every answered query against every write. Returns (writes, queries overlapping a write, points seen)."""
    writes = writes or Writes(w.series)
    writes.add(recs)
    puts = sorted((r.start, r.end) for r in recs if r.op["op"] == "put")
    overlapped = seen = 0
    for r in recs:
        if r.status is None:
            continue
        what = "client %d, %s: " % (r.client, r.op["op"])
        if r.op["op"] == "put":
            if r.status != 200:
                raise Violation("%s%d points via %s answered %d %r" % (what, len(r.op["pts"]), r.op["via"], r.status, r.body[:200]))
        elif r.op["op"] == "query":
            if r.status != 200:
                raise Violation("%s answered %d %r" % (what, r.status, r.body[:200]))
            overlapped += any(s < r.end and e > r.start for s, e in puts)
            seen += writes.judge(answer(r.body, what), r.op["m"], r.op.get("tags"), r.op["lo"], r.op["hi"], r.start, r.end, same, what)
        elif r.status != 200:
            raise Violation("%s%r answered %d %r" % (what, r.op, r.status, r.body[:200]))
    return writes, overlapped, seen


def ask(w, m, lo, hi, what):
    r = w.sv.post("/api/query", render(w.series, {"op": "query", "m": m, "lo": lo, "hi": hi})[2], [("Content-Type", "application/json")])
    if r.status != 200:
        raise Violation("%squery of %s answered %s" % (what, m, r))
    return r.body


def final(w, writes, same, what, lo, hi, at=INF):
    """The state after everything, as {metric: answer}"""
    out = {}
    for m in sorted({s["m"] for s in w.series}):
        out[m] = answer(ask(w, m, lo, hi, what), what)
        writes.judge(out[m], m, None, lo, hi, at, at, same, what)
    return out


def delays(rng):
    """Settings of the shim that hold threads back."""
    if rng.random() < 0.15:
        return {}
    # often and briefly, or seldom and for long: a few microseconds per call on the average
    every = rng.choice([3, 10, 50, 300, 2000])
    ns = min(5_000_000, int(2 * every * rng.choice([200, 1000, 4000])))
    return {"delay_every": every, "delay_ns": ns,
            "delay_seed": rng.randrange(1, 1 << 40), "delay_kinds": rng.choice([1, 1, 2, 3, 4, 5, 7])}


def crashed(text):
    """A stack trace of the server needs no second run."""
    return "AddressSanitizer" in text or "/tt(_ZN2tt" in text
