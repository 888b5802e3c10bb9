"""P03: what is wrong in one place of a request costs no more than the rest of that request."""
import json
import random
import time
import zlib

from vt import hist, model as M
from vt.hist import World, NOW, DAY
from vt.runner import Violation
from vt.server import Conn, HttpError, ServerDied, parse_json
from checks.p02 import taken

ID = "P03"
LEVEL = "exploration"
TECHNIQUE = ("property-based fault injection into requests: valid generated requests are damaged at one generated place, in every format; the reply "
             "and the whole stored state are compared with those of the undamaged parts (reference model)")
LEVEL_NOTE = ("Up to 40 requests of up to 30 points per case on up to 3 HTTP connections, put and line-protocol streams and UDP; about 60 kinds of "
              "damage (missing, empty, wrong-typed or over-long parts, cuts inside an element, broken compression, connections closed half way).")
RULE = "a case counts when at least 5 damaged requests were sent and the stored state was compared afterwards"
N = {"quick": 1100, "thorough": 9000}
SHRINK = ["reqs", "reqs.*.pts"]
PATIENCE = 40.0

BADNUM = ["abc", "12x", "1.2.3", "--5", "x12", "+-1", "1,5", "e5"]
BADTS = ["abc", "12x", "-5", "17157744000001", "171577440000000", "x1715774400", "99999999999999999999999"]
BADJ = ["null", "{}", "[]", '""', '"abc"', "nil", '"12x"', "-"]
JSON_KINDS = ["drop:metric", "drop:timestamp", "drop:value", "ts", "value", "tags", "tagv", "metric", "elem", "cut", "noquote", "unclosed"]
PLAIN_KINDS = ["cut:metric", "cut:ts", "cut:tsp", "drop:ts", "drop:value", "drop:metric", "ts", "value", "tag", "tag2", "ts.", "tab"]
LINE_KINDS = ["cut:name", "cut:tags", "cut:field", "cut:eq", "drop:field", "drop:name", "ts", "value", "tag", "nofield", "emptyfield", "field2", "comma2"]
KINDS = {"json": JSON_KINDS, "plain": PLAIN_KINDS, "line": LINE_KINDS, "tcp": PLAIN_KINDS, "linetcp": LINE_KINDS, "udp": PLAIN_KINDS}


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    conf["udp.server.enabled"] = "true"
    conf["tcp.listener.count"] = 2
    conf["http.listener.count"] = rng.choice([1, 2])
    conf["http.responders.per.listener"] = rng.choice([1, 2])
    series = []
    for j in range(rng.choice([1, 3, 6])):
        t = {"k%d" % k: rng.choice(["a", "bb", "c.c", "7"]) for k in range(rng.randint(0, 3))}
        t["j"] = "s%d" % j
        series.append({"m": rng.choice(["m0", "m1", "m2"]), "t": t})
    used, reqs = set(), []
    for _ in range(rng.choice([6, 12, 40])):
        via = rng.choice(["json", "json", "plain", "plain", "line", "line", "tcp", "linetcp", "udp"])
        pts = []
        for _ in range(1 if via == "udp" else rng.choice([1, 2, 5, 30])):
            p = [rng.randrange(len(series)), rng.randrange(40000), rng.randint(-9999, 9999)]
            if (p[0], p[1]) not in used:
                used.add((p[0], p[1]))
                pts.append(p)
        if not pts:
            continue
        q = {"via": via, "pts": pts, "conn": rng.randrange(3)}
        x = rng.random()
        if x < 0.7:
            q["bad"] = {"at": rng.randrange(len(pts)), "kind": rng.choice(KINDS[via]), "x": rng.randrange(1 << 20)}
        elif x < 0.76 and via in ("json", "plain", "line"):
            q["wire"] = [rng.choice(["abort", "gzip-cut", "gzip-flip", "not-gzip"]), rng.randrange(1000000)]
        elif x < 0.80 and via in ("json", "plain", "line"):
            q["long"] = [rng.choice(["tagv", "tagk", "metric", "many"]), rng.choice([500, 1015, 1020, 1023, 1024, 1025, 1100, 3000, 9000])]
        elif x < 0.9 and via in ("json", "plain", "line"):
            q["enc"] = rng.choice(["gzip", "deflate"])
        reqs.append(q)
    return {"conf": conf, "series": series, "reqs": reqs, "restart": rng.random() < 0.3, "seed": rng.randint(0, 1 << 30)}


def intact(data):
    """A flipped bit may be one that says nothing."""
    try:
        zlib.decompress(data, 31)
        return True
    except zlib.error:
        return False


class Text:
    """Renders one point, damaged or not."""

    def __init__(self, w, case):
        self.S = case["series"]
        self.unit = 1000 if w.ms else 1
        self.base = (NOW - DAY // 2) * self.unit

    def t(self, p):
        return self.base + p[1] * self.unit

    def json(self, p, bad=None):
        s = self.S[p[0]]
        r = random.Random(bad["x"] if bad else p[1])
        ent = [["metric", '"%s"' % s["m"]], ["timestamp", str(self.t(p))], ["value", str(p[2])],
               ["tags", "{%s}" % ",".join('"%s":"%s"' % kv for kv in s["t"].items())]]
        kind = bad["kind"] if bad else ""
        if kind.startswith("drop:"):
            ent = [e for e in ent if e[0] != kind[5:]]
        elif kind == "ts":
            ent[1][1] = r.choice(BADJ + ["true", "-5"] + ['"%s"' % x for x in BADTS] + BADTS[1:])
        elif kind == "value":
            ent[2][1] = r.choice(BADJ + ["true", "false"] + ['"%s"' % x for x in BADNUM if x != "1,5"] + BADNUM)
        elif kind == "tags":
            ent[3][1] = r.choice(["null", "5", '"a"', "[]", '["a"]', "true", '{"a"}', '{"a":}', '{:"a"}', '{"a":"b"'])
        elif kind == "tagv":
            ent[3][1] = '{"j":%s,"z":"y"}' % r.choice(["null", "{}", "[]", "abc", "truex", "-", "{\"a\":\"b\"}"])
        elif kind == "metric":
            ent[0][1] = r.choice(["null", "5", "{}", "[]", '""', "abc", "true"])
        r.shuffle(ent)
        out = "{" + ",".join('"%s":%s' % (k, v) for k, v in ent) + "}"
        if kind == "elem":
            out = r.choice(["null", "5", '"abc"', "true", "[]", "{}", "{,}", '{"metric"}', '{"metric":}', "{{}}", '{:}'])
        elif kind == "cut":
            # always inside the element, and the request ends here
            out = out[:r.randint(1, len(out) - 1)]
        elif kind == "noquote":
            k = r.choice(["metric", "timestamp", "value"])
            out = out.replace('"%s"' % k, r.choice([k, '"%s' % k, "%s\"" % k, "'%s'" % k]))
        elif kind == "unclosed":
            out = out[:-1]
        return out

    def plain(self, p, bad=None, cmd="put "):
        s = self.S[p[0]]
        t, v = str(self.t(p)), str(p[2])
        m = cmd + s["m"]
        tags = "".join(" %s=%s" % kv for kv in s["t"].items())
        if not bad:
            return "%s %s %s%s" % (m, t, v, tags)
        r, kind = random.Random(bad["x"]), bad["kind"]
        if kind == "cut:metric":
            return m
        if kind == "cut:ts":
            return "%s %s" % (m, t)
        if kind == "cut:tsp":
            return "%s %s " % (m, t)
        if kind == "drop:ts":
            return "%s%s" % (m, tags)
        if kind == "drop:value":
            return "%s %s%s" % (m, t, tags)
        if kind == "drop:metric":
            return "%s%s %s%s" % (cmd, t, v, tags) if r.random() < 0.5 or not cmd else "%s %s %s%s" % (cmd, t, v, tags)
        if kind == "ts":
            t = r.choice(BADTS)
        elif kind == "ts.":
            t = r.choice(["1.5", "", '"' + t, t + "i", t + ",", t + "="])
        elif kind == "value":
            v = r.choice(BADNUM)
        elif kind == "tag":
            tags += " " + r.choice(["host", "h", "x.y"])
        elif kind == "tag2":
            tags = " " + r.choice(["host", "h"]) + tags
        elif kind == "tab":
            return "%s\t%s %s%s" % (m, t, v, tags)
        return "%s %s %s%s" % (m, t, v, tags)

    def line(self, p, bad=None):
        s = self.S[p[0]]
        t, v, f = str(self.t(p)), str(p[2]), "f"
        m = s["m"]
        tags = "".join(",%s=%s" % kv for kv in s["t"].items())
        if not bad:
            return "%s%s %s=%s %s" % (m, tags, f, v, t)
        r, kind = random.Random(bad["x"]), bad["kind"]
        if kind == "cut:name":
            return m
        if kind == "cut:tags":
            return m + tags
        if kind == "cut:field":
            return "%s%s %s" % (m, tags, f)
        if kind == "cut:eq":
            return "%s%s %s=" % (m, tags, f)
        if kind == "drop:field":
            return "%s%s %s" % (m, tags, t)
        if kind == "drop:name":
            return "%s %s=%s %s" % (tags, f, v, t)
        if kind == "ts":
            t = r.choice(["abc", "12x", "x1715774400", "1.5.2", t + "=", t + ",f=1"])
        elif kind == "value":
            v = r.choice(BADNUM + [""])
        elif kind == "tag":
            tags = r.choice([",host" + tags, tags + ",host", tags + ",h"])
        elif kind == "nofield":
            return "%s%s %s %s" % (m, tags, v, t)
        elif kind == "emptyfield":
            f = ""
        elif kind == "field2":
            v += ",g" + r.choice(["", "=", "=abc", "=12x"])
        elif kind == "comma2":
            v += r.choice([",", ",,g=1", ",=1"])
        return "%s%s %s=%s %s" % (m, tags, f, v, t)


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        T, S = Text(w, case), case["series"]
        must, may = M.Model(w.ms), M.Model(w.ms)
        conns, streams = {}, {}
        bad_sent = 0

        def key(via, p):
            s = {"m": S[p[0]]["m"], "t": dict(S[p[0]]["t"])}
            if via in ("line", "linetcp"):
                s["t"]["_field"] = "f"
            return s

        def note(model, via, p):
            model.put(key(via, p), T.t(p), float(p[2]))

        def state(what, final=False):
            names = parse_json(w.sv.get("/api/suggest?type=metrics&q=&max=10000").body)
            lo, hi = T.base - 10 * T.unit, T.base + 2 * DAY * T.unit
            for m in sorted(set(names) | set(must.metrics())):
                got = w.sv.raw(m, lo, hi, ms=w.ms)
                exp, ok = must.of_metric(m), may.of_metric(m)
                for k, pts in got.items():
                    for t, v in pts.items():
                        e = ok.get(k, {}).get(t)
                        if e is None:
                            raise Violation("%snothing was sent for %s%s at %d, and %r is there" % (what, m, dict(k), t, v))
                        if not w.close({t: e})(e, v):
                            raise Violation("%s%s%s at %d is %r, sent was %r" % (what, m, dict(k), t, v, e))
                for k, pts in exp.items():
                    for t in pts:
                        if t not in got.get(k, {}):
                            raise Violation("%sthe point of %s%s at %d is missing" % (what, m, dict(k), t))
                ctx.label("points_compared", sum(len(p) for p in got.values()))

        def soon(what):
            """The stored state, once what was sent without a reply has been taken."""
            t0, wait = time.monotonic(), 0.001
            while True:
                try:
                    return state(what)
                except Violation as e:
                    if "missing" not in str(e) or time.monotonic() - t0 > PATIENCE:
                        raise
                time.sleep(wait)
                wait = min(0.2, wait * 2)

        def http(q, path, body, headers=(), abort=None):
            c = conns.get(q["conn"])
            if c is None:
                c = conns[q["conn"]] = Conn(w.sv.http_port, probe=w.sv.failure)
            try:
                if abort is not None:
                    head = "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n" % (path, len(body))
                    data = head.encode() + body
                    c.send(data[:1 + abort * (len(data) - 2) // 1000000])
                    time.sleep(0.001)
                    c.close()
                    conns.pop(q["conn"])
                    return None
                r = c.request("POST", path, body, headers)
            except (OSError, HttpError, ConnectionError) as e:
                if not w.sv.alive():
                    raise ServerDied("process ended: %s" % w.sv.failure())
                raise Violation("no answer to %r: %s" % (body[:300], e))
            if r.headers.get("connection") == "close":
                conns.pop(q["conn"]).close()
            return r

        for no, q in enumerate(case["reqs"]):
            via, pts, bad = q["via"], [p for p in q["pts"] if p[0] < len(S)], q.get("bad")
            if not pts:
                continue
            at = min(bad["at"], len(pts) - 1) if bad else None
            render = {"json": T.json, "plain": T.plain, "line": T.line, "tcp": T.plain, "linetcp": T.line,
                      "udp": lambda p, b=None: T.plain(p, b, "")}[via]
            items = [render(p, bad if k == at else None) for k, p in enumerate(pts)]
            cut = bad and bad["kind"] in ("cut", "unclosed") and via == "json"
            if cut:
                items = items[:at + 1]
                pts = pts[:at + 1]
            if bad:
                bad_sent += 1
                ctx.label("bad_" + via)
            desc = "request %d (%s%s): " % (no, via, ", %s at %d of %d: %r" % (bad["kind"], at, len(items), items[at][:200]) if bad else "")
            for k, p in enumerate(pts):
                if k != at:
                    note(may, via, p)
                elif bad["kind"] in ("field2", "comma2"):
                    note(may, via, p)       # the good field of the line
            if via in ("json", "plain", "line"):
                path = "/api/write" if via == "line" else "/api/put"
                if via == "json":
                    body = "[" + ",".join(items) + ("" if cut else "]")
                    if len(items) == 1 and not bad and no % 2:
                        body = items[0]
                else:
                    body = "\n".join(items) + ("\n" if not bad or bad["x"] % 3 else "")
                data, hdrs = body.encode(), []
                lg = q.get("long")
                if lg and not bad:
                    self_long(w, T, S, case, q, lg, http, must, may, ctx, desc)
                    lg = None
                wire = q.get("wire")
                enc = q.get("enc") or ("gzip" if wire and wire[0].startswith("gzip") else None)
                if enc:
                    c = zlib.compressobj(6, zlib.DEFLATED, 31 if enc == "gzip" else 15)
                    data = c.compress(data) + c.flush()
                    hdrs.append(("Content-Encoding", enc))
                if wire:
                    bad_sent += 1
                    ctx.label("wire_" + wire[0])
                    if wire[0] == "abort":
                        http(q, path, data, hdrs, wire[1])
                        continue
                    if wire[0] == "gzip-cut":
                        data = data[:len(data) - 9 - wire[1] * (len(data) - 10) // 1000000]
                    elif wire[0] == "gzip-flip":
                        k = 10 + wire[1] * (len(data) - 14) // 1000000
                        data = data[:k] + bytes([data[k] ^ (1 << wire[1] % 8)]) + data[k + 1:]
                    else:
                        hdrs = [("Content-Encoding", "gzip")]
                    r = http(q, path, data, hdrs)
                    if r.status == 200 and not intact(data):
                        raise Violation("%s%s was answered %s" % (desc, wire[0], r))
                    continue
                r = http(q, path, data, hdrs)
                if not bad:
                    if r.status != 200:
                        raise Violation("%sa good request was answered %s" % (desc, r))
                    for p in pts:
                        note(must, via, p)
                else:
                    if 200 <= r.status < 300:
                        raise Violation("%sanswered %s" % (desc, r))
                    for p in pts[:at]:
                        note(must, via, p)
            elif via == "udp":
                if len(items[0]) >= 250:
                    continue
                w.sv.udp(items[0] + "\n")
                # a datagram may be lost, so it is never required
            else:
                which = "tcp" if via == "tcp" else "line"
                s = streams.get(via)
                if s is None:
                    s = streams[via] = w.sv.telnet(which)
                port = w.sv.tcp_port if via == "tcp" else w.sv.line_port

                def push(text):
                    s.sendall(text.encode())
                    t0 = time.monotonic()
                    while not taken(w.sv.proc.pid, port, s.getsockname()[1]):
                        if time.monotonic() - t0 > PATIENCE:
                            raise Violation("%sthe server does not read on" % desc)
                        if not w.sv.alive():
                            raise ServerDied("process ended: %s" % w.sv.failure())
                        time.sleep(0.0005)
                    time.sleep(0.0005)
                if sum(len(x) + 1 for x in items) < 5:
                    continue            # kept back by the server until more arrives, and then of one segment with it
                # lines after the bad one in the same segment may be lost with it
                push("".join(x + "\n" for x in items))
                for p in (pts if at is None else pts[:at]):
                    note(must, via, p)
        soon("")
        for s in streams.values():
            s.close()
        if case["restart"]:
            w.step({"op": "restart"})
            state("after a restart, ")
        w.sv.stop()
        for c in conns.values():
            c.close()
        ctx.nontrivial = bad_sent >= 5


def self_long(w, T, S, case, q, lg, http, must, may, ctx, desc):
    """Two points that differ only at the end of something long: each is refused or stored under its own full name."""
    ctx.label("long_" + lg[0])
    p = q["pts"][0]
    for end in "ab":
        s = {"m": "lm", "t": {"j": "L"}}
        if lg[0] == "tagv":
            s["t"]["z"] = "v" * lg[1] + end
        elif lg[0] == "tagk":
            s["t"]["z" * lg[1] + end] = "v"
        elif lg[0] == "metric":
            s["m"] = "lm" + "m" * lg[1] + end
        else:
            for k in range(lg[1] // 10):
                s["t"]["k%d" % k] = "vvvvv%s" % end
        t, v = T.t(p) + (T.unit if end == "b" else 0), p[2]
        via = q["via"]
        if via == "json":
            body, path = json.dumps([hist.json_dp(s, t, v)]), "/api/put"
        elif via == "plain":
            body, path = hist.put_line(s, t, v), "/api/put"
        else:
            s["t"]["_field"] = "f"
            body, path = hist.ilp_line(s, t, v, w.ms), "/api/write"
        may.put(s, t, float(v))
        r = http(q, path, body.encode(), ())
        ctx.label("long_%d" % r.status)
        if r.status == 200:
            must.put(s, t, float(v))
