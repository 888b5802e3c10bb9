"""Histories: JSON-able operations against a server and the reference model."""
import json
import math
import zlib

from . import model as M
from .runner import Violation
from .server import Server

DAY = 86400
NOW = 1715774400            # 2024-05-15 12:00:00 UTC, the usual "now" of the server under test


def fmt(v):
    """Text of a value as a client would send it."""
    if isinstance(v, str):
        return v
    if isinstance(v, int) or (float(v).is_integer() and abs(v) < 1e15):
        return "%d" % v
    return repr(float(v))


def num(v):
    return float(v)


def put_line(s, t, v):
    return "put %s %d %s%s" % (s["m"], t, fmt(v), "".join(" %s=%s" % kv for kv in s["t"].items()))


def ilp_line(s, t, v, ms):
    """Line protocol: the field becomes a tag named _field."""
    tags = dict(s["t"])
    field = tags.pop("_field")
    return "%s%s %s=%s %d" % (s["m"], "".join(",%s=%s" % kv for kv in tags.items()), field, fmt(v), t)


def json_dp(s, t, v):
    return {"metric": s["m"], "timestamp": t, "value": num(v), "tags": s["t"]}


class World:
    """A server and what it should contain."""

    def __init__(self, case, ctx=None, variant=None, **kw):
        variant = variant or case.get("variant", "rel")
        conf = dict(case.get("conf") or {})
        self.ms = conf.setdefault("tsdb.timestamp.resolution", "millisecond")[0] == "m"
        self.case = case
        self.ctx = ctx
        self.sv = Server(conf, variant=variant, **kw)
        self.model = M.Model(self.ms)
        self.series = case.get("series") or []
        self.now = case.get("now", NOW)
        self.close = case_close(case)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.sv.destroy()

    def start(self):
        self.sv.set_now(self.now)
        self.sv.start()

    def advance(self, secs):
        self.now += secs
        self.sv.advance(secs)

    # writes ---------------------------------------------------------------------
    def send(self, via, pts):
        """pts: [[series index, time, value]]; returns True if answered with success."""
        sv, S = self.sv, self.series
        if via == "json":
            r = sv.post("/api/put", json.dumps([json_dp(S[i], t, v) for i, t, v in pts]),
                        [("Content-Type", "application/json")])
        elif via == "json1":
            for i, t, v in pts:
                r = sv.post("/api/put", json.dumps(json_dp(S[i], t, v)), [("Content-Type", "application/json")])
                if r.status != 200:
                    break
        elif via == "line":
            r = sv.post("/api/write", "".join(ilp_line(S[i], t, v, self.ms) + "\n" for i, t, v in pts))
        elif via == "wide":
            # one line for all fields of a measurement at a time
            rows = {}
            for i, t, v in pts:
                tags = [kv for kv in S[i]["t"].items() if kv[0] != "_field"]
                rows.setdefault((S[i]["m"], tuple(tags), t), {})[S[i]["t"]["_field"]] = fmt(v)
            r = sv.post("/api/write", "".join("%s%s %s %d\n" % (m, "".join(",%s=%s" % kv for kv in tags), ",".join("%s=%s" % kv for kv in f.items()), t)
                                              for (m, tags, t), f in rows.items()))
        elif via == "gzip":
            body = "".join(put_line(S[i], t, v) + "\n" for i, t, v in pts).encode()
            c = zlib.compressobj(6, zlib.DEFLATED, 31)
            r = sv.post("/api/put", c.compress(body) + c.flush(), [("Content-Encoding", "gzip")])
        else:
            r = sv.post("/api/put", "".join(put_line(S[i], t, v) + "\n" for i, t, v in pts))
        return r

    def put(self, via, pts):
        if not pts:
            return
        r = self.send(via, pts)
        if r.status != 200:
            raise Violation("write of %d points via %s answered %s" % (len(pts), via, r))
        for i, t, v in pts:
            self.model.put(self.series[i], t, num(v))

    # reads ----------------------------------------------------------------------
    def span(self):
        ts = [t for p in self.model.d.values() for t in p]
        if not ts:
            return 0, 1
        return min(ts), max(ts)

    def check_raw(self, metrics=None, lo=None, hi=None, what=""):
        a, b = self.span()
        lo = a - 1 if lo is None else lo
        hi = b + 1 if hi is None else hi
        for m in (metrics if metrics is not None else self.model.metrics()):
            got = self.sv.raw(m, lo, hi, ms=self.ms)
            exp = {k: {t: v for t, v in p.items() if lo <= t <= hi} for k, p in self.model.of_metric(m).items()}
            M.expect_series(exp, got, "%smetric %s in [%d,%d]: " % (what, m, lo, hi), self.close, self.model.of_metric(m))
            if self.ctx:
                self.ctx.label("points_compared", sum(len(p) for p in exp.values()))

    def step(self, op):
        """One operation of a history."""
        kind = op["op"]
        if kind == "put":
            self.put(op["via"], [p for p in op["pts"] if p[0] < len(self.series)])
        elif kind == "check":
            self.check_raw()
        elif kind == "range":
            self.check_raw(lo=op["lo"], hi=op["hi"])
        elif kind == "restart":
            self.sv.stop(op.get("how", "term"))
            self.now += op.get("down", 0)
            self.sv.advance(op.get("down", 0))
            self.sv.start()
        elif kind == "clock":
            self.advance(op["by"])
        elif kind == "admin":
            r = self.sv.admin(op["cmd"], **op.get("params", {}))
            if r.status != 200:
                raise Violation("admin %s answered %s" % (op["cmd"], r))
        else:
            raise ValueError(kind)
        if self.ctx:
            self.ctx.label("op_" + kind)

    def cp_all(self):
        """A completed snapshot of pending pages."""
        r = self.sv.admin("append")
        if r.status != 200:
            raise Violation("admin append answered %s" % r)


def case_close(case):
    """Comparison of stored values. The lossy codecs keep `precision` decimals; generators only
    use values with fewer, so any larger difference is an error."""
    prec = int((case.get("conf") or {}).get("tsdb.compressor.precision", 8))
    return M.scaled(max(1e-7, 0.02 * 10.0 ** -prec), 1e-9)


# generation ---------------------------------------------------------------------------

CODECS = [4, 4, 3, 2, 1, 0]


def gen_conf(rng, **kw):
    c = {"tsdb.timestamp.resolution": rng.choice(["millisecond", "second"]),
         "tsdb.compressor.version": rng.choice(CODECS),
         "tsdb.page.size": rng.choice(["64b", "128b", "256b", "256b", "512b", "1024b"]),
         "tsdb.metric.buckets": rng.choice([1, 2, 20, 100])}
    if rng.random() < 0.6:
        c["tsdb.page.count"] = rng.choice([16, 17, 32, 64, 256])
    c.update(kw)
    return c


def gen_series(rng, n, metrics=None):
    """n distinct series over a few metrics."""
    ms = metrics or ["m%d" % i for i in range(rng.randint(1, 3))]
    out, seen = [], set()
    while len(out) < n:
        t = {"h": "h%d" % rng.randint(0, max(2, n))}
        if rng.random() < 0.5:
            t["d"] = rng.choice(["a", "b", "c"])
        if rng.random() < 0.3:
            t["_field"] = rng.choice(["f", "g"])
        s = {"m": rng.choice(ms), "t": t}
        if M.skey(s) not in seen:
            seen.add(M.skey(s))
            out.append(s)
    return out


def gen_value(rng, kind, prev=0.0):
    if kind == "const":
        return prev
    if kind == "counter":
        return prev + rng.randint(0, 50)
    if kind == "int":
        return rng.randint(-1000, 1000)
    if kind == "walk":
        return round(prev + rng.uniform(-1, 1), rng.choice([0, 1, 2, 4]))
    if kind == "dec":
        return round(rng.uniform(-1e4, 1e4), rng.choice([1, 2, 3, 6]))
    if kind == "jump":
        return rng.choice([0, 1, -1, 1e6, -1e6, 123456.789, 0.001])
    return rng.choice([gen_value(rng, k, prev) for k in ("const", "counter", "int", "walk", "dec", "jump")])


KINDS = ["const", "counter", "int", "walk", "dec", "jump", "mix"]


class Stream:
    """Times and values of one series, never the same time twice unless asked."""

    def __init__(self, rng, ms, start, kind=None, special=0):
        self.rng, self.ms, self.special = rng, ms, special
        self.unit = 1000 if ms else 1
        self.t = start * self.unit + (rng.randint(0, 999) if ms and rng.random() < 0.5 else 0)
        self.kind = kind or rng.choice(KINDS)
        self.v = 0.0
        self.last = self.unit
        self.used = set()
        self.order = []
        self.pace = self.new_pace()

    def new_pace(self):
        r = self.rng
        p = r.choice(["1s", "10s", "60s", "jit", "ms", "hour", "big", "edge"])
        return p

    def gap(self):
        r, u = self.rng, self.unit
        p = self.pace
        if p == "1s":
            return u
        if p == "10s":
            return 10 * u
        if p == "60s":
            return 60 * u
        if p == "jit":
            return max(1, 15 * u + r.randint(-3 * u, 3 * u))
        if p == "ms":
            return r.randint(1, 40) if self.ms else r.randint(1, 3)
        if p == "hour":
            return r.choice([600, 3600, 7200]) * u + r.randint(0, u)
        if p == "edge":
            # the change of the distance is next to a power of two
            d = r.choice([1, -1]) * ((1 << r.randint(0, r.choice([8, 14, 17]))) + r.choice([-1, 0, 0, 1]))
            self.last = self.last + d if self.last + d > 0 else max(1, abs(d) % 5000)
            if self.last > 40000 * u:
                self.last = u
            return self.last
        return r.choice([1, 60, 300, 4000, 20000, 43200, DAY]) * u

    def next(self, late=0.0, dup=0.0):
        r = self.rng
        if r.random() < 0.02:
            self.pace = self.new_pace()
        if self.order and r.random() < dup:
            t = r.choice(self.order[-40:] if r.random() < 0.7 else self.order)
        elif self.order and r.random() < late:
            back = r.choice([1, 3, 10, 60, 600, 7200, DAY, 2 * DAY]) * self.unit
            t = max(self.unit, r.choice(self.order) - r.randint(1, back))
            while t in self.used:
                t -= 1
        else:
            self.t += self.gap()
            while self.t in self.used:
                self.t += 1
            t = self.t
        self.v = gen_value(r, self.kind, self.v)
        self.used.add(t)
        self.order.append(t)
        if self.special and r.random() < self.special:
            return t, r.choice(["nan", "inf", "-inf"])
        return t, self.v


def gen_batches(rng, streams, total, late=0.0, dup=0.0, maxbatch=120):
    """Batches of [[series, t, v]] over all streams."""
    out, n = [], 0
    vias = ["plain", "plain", "json", "gzip"]
    while n < total:
        k = min(total - n, rng.choice([1, 2, 7, 30, maxbatch]))
        pts = []
        style = rng.random()
        i = rng.randrange(len(streams))
        for _ in range(k):
            if style > 0.4:
                i = rng.randrange(len(streams))
            t, v = streams[i].next(late, dup)
            pts.append([i, t, v])
        out.append({"op": "put", "via": rng.choice(vias), "pts": pts})
        n += k
    return out


def gen_days(rng, nseries, ms, now=NOW):
    """Batches over unevenly spaced days: single days, runs of days and long gaps."""
    unit = 1000 if ms else 1
    day, days = now - now % DAY, []
    for _ in range(rng.choice([1, 2, 3, 4])):
        run = rng.choice([1, 1, 2, 5, 12, 20])
        for _ in range(run):
            days.append(day)
            day -= DAY
        day -= rng.choice([0, 1, 3, 30, 90, 250]) * DAY
    days = days[:40]
    rng.shuffle(days) if rng.random() < 0.2 else days.reverse()
    pts, kind = [], rng.choice(KINDS)
    for d in days:
        for k in range(nseries):
            for t in sorted(rng.randrange(DAY * unit) for _ in range(rng.choice([0, 1, 1, 2, 4, 20]))):
                if rng.random() < 0.1:
                    t = rng.choice([0, DAY * unit // 2, DAY * unit - 1])
                pts.append([k, d * unit + t, gen_value(rng, kind)])
    ops = []
    while pts:
        n = rng.choice([1, 10, 50, 200])
        ops.append({"op": "put", "via": rng.choice(["plain", "json", "gzip"]), "pts": pts[:n]})
        pts = pts[n:]
    return ops
