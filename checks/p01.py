"""P01: the same points through every protocol, spelling and compression end up as the same series."""
import json
import random
import socket
import time
import zlib

from vt import hist, model as M
from vt.hist import World
from vt.runner import Violation
from vt.server import ServerDied, parse_json

ID = "P01"
LEVEL = "exploration"
TECHNIQUE = ("differential property-based testing: one generated set of points rendered for every ingest path with generated batching, "
             "spelling, key order, whitespace and compression; all stored states are compared with one reference model")
LEVEL_NOTE = ("Up to 200 points of up to 12 series per case; every point goes through JSON (single, array, any key order and whitespace, quoted "
              "numbers), put lines over HTTP, TCP and UDP, line protocol over HTTP and TCP, plain, gzip or deflate; names of letters, digits and -_./ .")
RULE = "a case counts when at least 5 points went through at least 5 ingest paths and were compared"
N = {"quick": 2000, "thorough": 16000}
SHRINK = ["pts", "series", "paths"]

PATHS = ["json", "plain", "tcp", "udp", "line", "linetcp", "mix"]
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
PATIENCE = 40.0


def word(rng, n=None):
    n = n or rng.choice([1, 2, 5, 12])
    return rng.choice(CHARS) + "".join(rng.choice(CHARS + "-_./") for _ in range(n - 1))


def gen_value(rng):
    x = rng.random()
    if x < 0.3:
        return str(rng.randint(-1000, 1000))
    if x < 0.5:
        return "%.*f" % (rng.choice([1, 2, 3]), rng.uniform(-1000, 1000))
    if x < 0.6:
        return rng.choice(["0", "0.0", "-0.5", "0.001", "1000000", "-1000000", "123456789", "99999.5"])
    if x < 0.8:
        return "%d%s%s%d" % (rng.randint(-99, 99), rng.choice(["", ".5", ".25"]), rng.choice("eE"), rng.choice([0, 1, 3, -1, -2]))
    return "%d%s%s%d" % (rng.randint(1, 99), rng.choice(["", ".5"]), rng.choice(["e+", "E+", "e0", "e-0"]), rng.choice([0, 1, 2]))


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    conf["udp.server.enabled"] = "true"
    conf["tcp.listener.count"] = rng.choice([1, 2, 2])
    conf["tcp.responders.per.listener"] = rng.choice([1, 1, 2])
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    keys = [word(rng) for _ in range(rng.choice([1, 3, 6]))]
    vals = [word(rng) for _ in range(4)] + ["true", "false", "0", "17", "007", "3.5"]
    series, seen = [], set()
    metrics = [word(rng) for _ in range(rng.choice([1, 2, 4]))]
    for _ in range(rng.choice([1, 2, 5, 12])):
        t = {k: rng.choice(vals) for k in rng.sample(keys, rng.randint(0, len(keys)))}
        s = {"m": rng.choice(metrics), "t": t, "f": rng.choice(["f", "g", word(rng)])}
        k = (s["m"], frozenset(t.items()))
        if k not in seen:
            seen.add(k)
            series.append(s)
    pts, used = [], set()
    t0 = hist.NOW - rng.randint(0, 2 * hist.DAY)
    for _ in range(rng.choice([1, 5, 20, 60, 200])):
        j = rng.randrange(len(series))
        t = t0 + rng.randint(0, rng.choice([10, 600, 90000]))
        frac = rng.choice([0, 0, rng.randint(0, 999)])
        if rng.random() < 0.3:
            sent = t                    # a time in seconds is accepted by either resolution
            stored = t * 1000 if ms else t
        else:
            sent = t * 1000 + frac
            stored = sent if ms else t
        if (j, stored) in used:
            continue
        used.add((j, stored))
        pts.append([j, sent, gen_value(rng)])
    paths = [p for p in PATHS if rng.random() < 0.85] or ["json", "plain"]
    return {"conf": conf, "series": series, "pts": pts, "paths": paths, "seed": rng.randint(0, 1 << 30),
            "restart": rng.random() < 0.3}


class Render:
    def __init__(self, rng, series):
        self.r, self.S = rng, series

    def tags(self, s):
        kv = list(s["t"].items())
        self.r.shuffle(kv)
        return kv

    def ws(self):
        return self.r.choice(["", "", "", " ", "  ", "\t"]) if self.loose else ""

    def json_dp(self, p, pre):
        r, s = self.r, self.S[p[0]]
        w = self.ws
        ts = str(p[1])
        if r.random() < 0.2:
            ts = '"%s"' % ts
        v = p[2] if r.random() < 0.8 else '"%s"' % p[2]
        ent = [("metric", '"%s"' % (pre + s["m"])), ("timestamp", ts), ("value", v)]
        kv = []
        for k, x in self.tags(s):
            bare = (x in ("true", "false") or x in ("0", "17", "3.5")) and r.random() < 0.5
            kv.append('%s"%s"%s:%s%s%s' % (w(), k, w(), w(), x if bare else '"%s"' % x, w()))
        if kv or r.random() < 0.5:
            ent.append(("tags", "{" + ",".join(kv) + "}"))
        r.shuffle(ent)
        return "{" + ",".join('%s"%s"%s:%s%s%s' % (w(), k, w(), w(), x, w()) for k, x in ent) + "}"

    def json_body(self, pts, pre):
        self.loose = self.r.random() < 0.5
        sep = self.r.choice([",", ", ", " ,", ",\n"]) if self.loose else ","
        if len(pts) == 1 and self.r.random() < 0.6:
            return self.json_dp(pts[0], pre)
        return "[" + self.ws() + sep.join(self.json_dp(p, pre) for p in pts) + self.ws() + "]"

    def put(self, p, pre, eol=None, cmd="put "):
        s = self.S[p[0]]
        v = p[2] if self.r.random() < 0.9 else '"%s"' % p[2]
        if eol is None:
            eol = self.r.choice(["\n", "\n", "\r\n"])
        return "%s%s %d %s%s%s" % (cmd, pre + s["m"], p[1], v, "".join(" %s=%s" % kv for kv in self.tags(s)), eol)

    def lines(self, pts, pre):
        """Line protocol; points of one series and time may share a line as fields, which they never do here."""
        out = []
        for p in pts:
            s = self.S[p[0]]
            v = p[2]
            if self.r.random() < 0.2 and v.lstrip("-").isdigit():
                v += "i"
            out.append("%s%s %s=%s %d" % (pre + s["m"], "".join(",%s=%s" % kv for kv in self.tags(s)), s["f"], v, p[1]))
        return out


def batches(rng, pts):
    out, k = [], 0
    while k < len(pts):
        n = rng.choice([1, 2, 10, 50, 200])
        out.append(pts[k:k + n])
        k += n
    return out


def post(w, rng, path, body, typ=None):
    data, hdrs = body.encode(), []
    enc = rng.choice(["", "", "gzip", "deflate"])
    if enc:
        c = zlib.compressobj(rng.choice([1, 6, 9]), zlib.DEFLATED, 31 if enc == "gzip" else 15)
        data = c.compress(data) + c.flush()
        hdrs.append(("Content-Encoding", enc))
    if typ and rng.random() < 0.5:
        hdrs.append(("Content-Type", typ))
    if rng.random() < 0.2:
        hdrs.append(("X-Request-ID", "r%d" % rng.randint(0, 999)))
    rng.shuffle(hdrs)
    r = w.sv.post(path, data, hdrs)
    if r.status != 200:
        raise Violation("%s %s body %r answered %s" % (path, enc or "plain", body[:200], r))


def missing(w, exp):
    """Which points are not there (yet)."""
    lo, hi = w.lo, w.hi
    for (m, tags), pts in exp.items():
        got = w.sv.raw(m, lo, hi, ms=w.ms).get(tags, {})
        for t in pts:
            if t not in got:
                return (m, sorted(tags), t)
    return None


def await_points(w, exp, again=None):
    t0, n, wait = time.monotonic(), 0, 0.001
    while missing(w, exp):
        dt = time.monotonic() - t0
        if again and dt > 2 * (n + 1) and n < 4:
            again()
            n += 1
        if dt > PATIENCE:
            return
        time.sleep(wait)
        wait = min(wait * 2, 0.2)


def run(case, ctx):
    S = case["series"]
    pts = [p for p in case["pts"] if p[0] < len(S)]
    with World(case, ctx) as w:
        w.start()
        ms = w.ms

        def stored(t):
            if t < 10 ** 10:
                return t * 1000 if ms else t
            return t if ms else t // 1000
        ts = [stored(p[1]) for p in pts] or [0]
        w.lo, w.hi = min(ts) - 1, max(ts) + 1

        def model(pre, field, which=None):
            exp = {}
            for p in (pts if which is None else which):
                s = S[p[0]]
                t = dict(s["t"])
                if field:
                    t["_field"] = s["f"]
                exp.setdefault((pre + s["m"], frozenset(t.items())), {})[stored(p[1])] = float(p[2])
            return exp
        world = {}
        for no, path in enumerate(case["paths"]):
            rng = random.Random("%d/%s" % (case["seed"], path))
            R = Render(rng, S)
            pre = path[0] + path[-1] + "."
            exp = model(pre, path in ("line", "linetcp"))
            if path == "json":
                for b in batches(rng, pts):
                    post(w, rng, "/api/put", R.json_body(b, pre), "application/json")
            elif path == "plain":
                for b in batches(rng, pts):
                    body = "".join(R.put(p, pre) for p in b)
                    if rng.random() < 0.3:
                        body = body.rstrip("\r\n")
                    post(w, rng, "/api/put", body, "text/plain")
            elif path == "line":
                for b in batches(rng, pts):
                    body = "\n".join(R.lines(b, pre)) + rng.choice(["", "\n"])
                    if rng.random() < 0.2:
                        body = "# a comment\n" + body
                    post(w, rng, "/api/write", body)
            elif path in ("tcp", "linetcp"):
                s = w.sv.telnet("tcp" if path == "tcp" else "line")
                for b in batches(rng, pts):
                    data = "".join(R.put(p, pre) for p in b) if path == "tcp" else "".join(x + "\n" for x in R.lines(b, pre))
                    s.sendall(data.encode())
                    if rng.random() < 0.2:
                        s.close()
                        s = w.sv.telnet("tcp" if path == "tcp" else "line")
                s.close()
                await_points(w, exp)
            elif path == "udp":
                msgs = [R.put(p, pre, rng.choice(["", "\n"]), "") for p in pts]
                msgs = [m for m in msgs if len(m) < 255]
                if len(msgs) < len(pts):
                    continue

                def send():
                    for m in msgs:
                        w.sv.udp(m)
                send()
                await_points(w, exp, send)
            else:
                # one series fed through different paths in turn
                for b in batches(rng, pts):
                    z = rng.choice(["json", "plain", "tcp"])
                    if z == "json":
                        post(w, rng, "/api/put", R.json_body(b, pre), "application/json")
                    elif z == "plain":
                        post(w, rng, "/api/put", "".join(R.put(p, pre) for p in b), "text/plain")
                    else:
                        with w.sv.telnet() as s:
                            s.sendall("".join(R.put(p, pre) for p in b).encode())
                        await_points(w, model(pre, False, b))
            world[path] = exp
            ctx.label("path_" + path)

        def check(what):
            for path, exp in world.items():
                for m in sorted({k[0] for k in exp}):
                    got = w.sv.raw(m, w.lo, w.hi, ms=ms)
                    e = {k[1]: p for k, p in exp.items() if k[0] == m}
                    M.expect_series(e, got, "%sthrough %s, metric %s: " % (what, path, m), w.close, e)
                    ctx.label("compared", sum(len(p) for p in e.values()))
            got = sorted(x for x in parse_json(w.sv.get("/api/suggest?type=metrics&q=&max=10000").body))
            want = sorted({k[0] for exp in world.values() for k in exp})
            if got != want:
                raise Violation("%smetrics known to the server: %r, sent: %r" % (what, got, want))
        check("")
        if case["restart"]:
            w.step({"op": "restart"})
            check("after a restart, ")
        try:
            w.sv.stop()
        except ServerDied as e:
            raise Violation(str(e))
        ctx.nontrivial = len(pts) >= 5 and len(world) >= 5
