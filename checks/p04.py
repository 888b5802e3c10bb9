"""P04: hostile bytes on every port, under a memory checker."""
import json
import random
import re
import socket
import time
import zlib
from urllib.parse import quote

from vt import hist, model as M
from vt.hist import World, NOW, DAY
from vt.runner import Violation
from vt.server import Conn, HttpError, ServerDied, parse_json

ID = "P04"
LEVEL = "exploration"
TECHNIQUE = ("fuzzing of a live server built with AddressSanitizer: grammar-generated requests for every port and endpoint, mutated structurally "
             "and bytewise; memory errors, ends and hangs of the process are violations, and stored data is compared with a reference model "
             "afterwards and after a restart")
LEVEL_NOTE = ("40 to 250 hostile messages per case on the HTTP, put, line-protocol and UDP ports, up to 700 KB each, whole or cut, on fresh connections; "
              "requests that ask the server to stop or to change its configuration are left out.")
RULE = "a case counts when at least 30 hostile messages were sent and all probes and comparisons after them were made"
N = {"quick": 400, "thorough": 4000}
SHRINK = ["msgs"]
ENV = {"ASAN_OPTIONS": "handle_segv=2:handle_abort=2:handle_sigbus=2:handle_sigfpe=2:detect_leaks=0:abort_on_error=0:exitcode=77:"
                       "allocator_may_return_null=1:detect_stack_use_after_return=0:verify_asan_link_order=0:hard_rss_limit_mb=2500:"
                       "quarantine_size_mb=64"}

NUMS = ["0", "-1", "1", "00", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "1e308", "-1e308", "1e309", "1e-320", "0x10", "1e400",
        "nan", "inf", "-inf", ".", "-", "", "1.", ".5", "1715774400", "1715774400000", "1715774400000000", "9999999999", "10000000000",
        "9999999999999", "10000000000000", "100000000000000000", "-1715774400", "0.0000000001", "123456789.123456789", "255", "256", "65535", "65536"]
TOKENS = ["\n", "\r\n", "\r", " ", "  ", "\t", "\0", "\"", "\\", "\\\"", "'", "{", "}", "[", "]", "(", ")", ",", ";", ":", "=", "|", "*", "?", "&", "%", "%%", "%4", "%zz",
          "%00", "%0a", "+", "#", "/", "//", "../", "<", ">", "\xff", "\x80", "\xc3\xa9", "\x7f", "put ", "_cp ", "version\n", "stats\n", "help\n",
          "null", "true", "false", "[]", "{}", "\"\"", "tags", "metric", "none:", "sum:", "rate", "rate{counter", "1s-avg", "0all-sum-zero", "explicit_tags",
          "literal_or(", "not_literal_or(", "iliteral_or(", "wildcard(", "regexp(", "regexp([", "regexp(a{99999})", "not_key()", "iwildcard(*)", "~", "_field", "_", "host", "a=b",
          "Content-Length: ", "Content-Length: 5\r\n", "Content-Length: -1\r\n", "Content-Length: 4294967296\r\n", "Content-Encoding: gzip\r\n",
          "Content-Encoding: deflate\r\n", "Transfer-Encoding: chunked\r\n", "Connection: close\r\n", "Connection: keep-alive\r\n", "X-Request-ID: ",
          "Expect: 100-continue\r\n", "HTTP/1.1", "HTTP/", "GET ", "POST ", "PUT ", "DELETE ", "\r\n\r\n", "downsample", "filters", "queries", "-ago", "1h-ago", "now"]
WORDS = ["m0", "m1", "m.x", "cpu", "a", "sys.cpu.user", "M-2", "x/y_z"]
PATIENCE = 40


def ts(rng):
    return rng.choice([str(NOW - rng.randint(0, 3 * DAY)), str((NOW - rng.randint(0, DAY)) * 1000), rng.choice(NUMS)] + [str(NOW - rng.randint(0, 600))] * 3)


def val(rng):
    return rng.choice([str(rng.randint(-99, 99)), "%.3f" % rng.uniform(-9, 9), rng.choice(NUMS)])


def tags(rng, sep, eq="="):
    return sep.join("%s%s%s" % (rng.choice(["host", "dc", "k%d" % rng.randrange(4)]), eq, rng.choice(["a", "b", "c1", "v.2"])) for _ in range(rng.choice([0, 1, 2, 2, 5])))


def put(rng):
    t = tags(rng, " ")
    return "put %s %s %s%s" % (rng.choice(WORDS), ts(rng), val(rng), " " + t if t else "")


def ilp(rng):
    t = tags(rng, ",")
    f = ",".join("%s=%s%s" % (rng.choice(["f", "g", "usage"]), val(rng), rng.choice(["", "", "i"])) for _ in range(rng.choice([1, 1, 2, 4])))
    return "%s%s %s %s" % (rng.choice(WORDS), "," + t if t else "", f, rng.choice([ts(rng), str(NOW * 10 ** 9)]))


def jdp(rng):
    t = {rng.choice(["host", "dc", "k"]): rng.choice(["a", "b", 1, True, 2.5]) for _ in range(rng.choice([0, 1, 3]))}
    return '{"metric":"%s","timestamp":%s,"value":%s,"tags":%s}' % (rng.choice(WORDS), ts(rng), val(rng) or "1", json.dumps(t))


AGGS = ["none", "sum", "avg", "min", "max", "count", "dev", "p50", "p99", "p999", "bottom1", "top3", "bottomx", "top", "last", "first", "zimsum"]
DOWNS = ["1s-avg", "10s-sum", "1m-avg-zero", "1h-max-nan", "1d-count", "0all-sum", "30s-p99-none", "1w-min", "1n-avg", "1y-sum", "10ms-avg", "5m-last", "1s-avg-scalar#3",
         "1mc-sum", "999999999h-avg", "0s-avg", "1s", "-", "1s-", "1s-avg-", "avg", "1x-avg"]
FILT = ["*", "a", "a|b", "literal_or(a)", "literal_or(a|b)", "not_literal_or(a)", "not_literal_or()", "iliteral_or(A)", "wildcard(a*)", "wildcard(*)", "wildcard()",
        "iwildcard(*A)", "regexp(a.*)", "regexp()", "regexp((a+)+)", "regexp([)", "not_key()", "literal_or(", "literal_or", "~", "a*b*c", "|", "a|"]
TIMES = ["1h-ago", "1d-ago", "0s-ago", "1y-ago", "999999999h-ago", "-1h-ago", "h-ago", "2024/05/15-12:00:00", "2024/05/15 12:00", "2024/05/15", "now", "2024/13/45-99:99:99", "abc", ""]
RATES = ["rate", "rate{counter}", "rate{counter,100}", "rate{counter,100,5}", "rate{dropcounter}", "rate{", "rate{}", "rate{,,}", "rate{counter,abc}"]


def narrow(rng):
    """A range that stays small when filled."""
    a = NOW - rng.randint(60, 7200)
    return str(a), str(a + rng.randint(1, 7200))


def when(rng):
    if rng.random() < 0.5:
        return narrow(rng)
    return rng.choice([ts(rng), rng.choice(TIMES)]), rng.choice([ts(rng), rng.choice(TIMES), "", "1715774401"])


def get_query(rng):
    a, b = when(rng)
    m = rng.choice(AGGS)
    for part in rng.sample([rng.choice(RATES), rng.choice(DOWNS), "explicit_tags", rng.choice(["rollup_usage=ROLLUP_RAW", "rollupUsage=x"])], rng.choice([0, 1, 1, 2, 3])):
        m += ":" + part
    m += ":" + rng.choice(WORDS)
    if rng.random() < 0.6:
        m += "{%s}" % ",".join("%s=%s" % (rng.choice(["host", "dc", "_field", "k1"]), rng.choice(FILT)) for _ in range(rng.choice([0, 1, 2, 4])))
        if rng.random() < 0.2:
            m += "{%s}" % "host=*"
    s = "/api/query?start=%s" % quote(a, safe="/:-")
    if b:
        s += "&end=" + quote(b, safe="/:-")
    for _ in range(rng.choice([1, 1, 2])):
        s += "&m=" + (m if rng.random() < 0.5 else quote(m))
    for x in ("msResolution=true", "tz=" + rng.choice(["UTC", "America/New_York", "UTC+1", "X", ""]), "showTSUIDs", "arrays=true", "downsample=" + rng.choice(DOWNS), "delete=false"):
        if rng.random() < 0.15:
            s += "&" + x
    return "GET", s, None


def post_query(rng):
    a, b = when(rng)
    num = lambda s: int(s) if s.isdigit() and len(s) < 19 and rng.random() < 0.7 else s
    qs = []
    for _ in range(rng.choice([1, 1, 2, 5])):
        q = {"metric": rng.choice(WORDS), "aggregator": rng.choice(AGGS)}
        if rng.random() < 0.5:
            q["downsample"] = rng.choice(DOWNS)
        if rng.random() < 0.3:
            q["rate"] = rng.choice([True, False, "true", 1])
            if rng.random() < 0.6:
                q["rateOptions"] = rng.choice([{"counter": True}, {"counter": True, "counterMax": 100, "resetValue": 5}, {"counter": "true", "counterMax": "x"}, {},
                                               {"dropResets": True}, [], None, {"counterMax": -1, "resetValue": 1e308}])
        if rng.random() < 0.4:
            q["tags"] = rng.choice([{"host": rng.choice(FILT)}, {"host": "a", "dc": "*"}, {}, [], None, "x", {"host": 5}, {"host": ""}, {"": "a"}])
        if rng.random() < 0.4:
            q["filters"] = [rng.choice([{"type": rng.choice(["literal_or", "wildcard", "regexp", "not_key", "not_literal_or", "x"]), "tagk": "host",
                                         "filter": rng.choice(FILT), "groupBy": rng.random() < 0.5},
                                        {}, {"type": "wildcard"}, {"tagk": "host", "filter": "*"}, 5, None, "x"]) for _ in range(rng.choice([0, 1, 2, 3]))]
        if rng.random() < 0.2:
            q["explicitTags"] = rng.choice([True, "true", 0])
        if rng.random() < 0.1:
            q["rollupUsage"] = rng.choice(["ROLLUP_RAW", "ROLLUP_NOFALLBACK", "", 5])
        if rng.random() < 0.1:
            q.pop(rng.choice(list(q)))
        qs.append(q)
    doc = {"start": num(a), "queries": qs if rng.random() < 0.95 else rng.choice([{}, [], None, "x", [5], [[]]])}
    if b:
        doc["end"] = num(b)
    if rng.random() < 0.2:
        doc["msResolution"] = rng.choice([True, "true", 1])
    if rng.random() < 0.1:
        doc["timezone"] = rng.choice(["UTC", "Asia/Tokyo", "x", 5])
    if rng.random() < 0.1:
        doc["delete"] = False
    return "POST", "/api/query", json.dumps(doc, separators=rng.choice([(",", ":"), (", ", ": ")]))


def cps(rng):
    """Many checkpoints: their list grows beyond the buffer."""
    a, b = rng.choice([1, 3, 50]), rng.choice(["", "x" * 25, "y" * 200, rng.choice(WORDS)])
    return "".join("_cp l%d:ch%d%s:%s\n" % (k % a, rng.randrange(1000), b, rng.choice(["1", "cp77", "z" * 30, b])) for k in range(rng.choice([2, 40, 150])))


def misc(rng):
    q = lambda: quote(rng.choice(WORDS + ["", "m", "h", "a", "*"]))
    return rng.choice([
        lambda: ("GET", "/api/suggest?type=%s&q=%s&max=%s" % (rng.choice(["metrics", "tagk", "tagv", "x", ""]), q(), rng.choice(NUMS + ["10"])), None),
        lambda: ("POST", "/api/suggest", json.dumps({"type": rng.choice(["metrics", "tagk", "tagv", 5]), "q": rng.choice(WORDS), "max": rng.choice([1, 10, "5", -1])})),
        lambda: ("GET", "/api/search/lookup?m=%s{host=%s}&limit=%s&startIndex=%s" % (q(), rng.choice(FILT), rng.choice(NUMS), rng.choice(NUMS)), None),
        lambda: ("GET", "/api/search/lookup?m=%s" % rng.choice(WORDS + ["{", "m0{", "m0{}", "{host=a}", "*"]), None),
        lambda: ("POST", "/api/search/lookup", json.dumps({"metric": rng.choice(WORDS), "tags": rng.choice([[{"key": "host", "value": "*"}], [], {}, [{}], [5]]),
                                                           "limit": rng.choice([1, 5, "x", -1])})),
        lambda: (rng.choice(["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "X", ""]), rng.choice(["/api/aggregators", "/api/config", "/api/config/filters", "/api/stats",
                 "/api/version", "/", "/api/", "/api/query", "/api/put", "/api/write", "/index.html", "/nosuch", "/api/suggest", "/api/search/lookup", "/api/help", "*", "",
                 "/api/query?", "/api/query?start", "/api/query?start=&m=", "/api/query?m=sum:m0", "/api/query?start=1h-ago", "/api/admin"]), rng.choice([None, "", "x", "{}"])),
        lambda: ("POST", rng.choice(["/api/put", "/api/write"]), cps(rng)),
        lambda: ("POST", "/api/admin?cmd=%s" % rng.choice(["append", "gc", "ping", "stat", "cp", "cp&leader=", "cp&leader=l1", "", "x", "append&x=1"]), None),
    ])()


def http_bytes(rng, method, path, body, fix=True):
    hdrs = ["Host: localhost"]
    data = b"" if body is None else body.encode("latin1", "replace") if isinstance(body, str) else body
    if body is not None:
        enc = rng.random()
        if enc < 0.08:
            c = zlib.compressobj(6, zlib.DEFLATED, 31)
            data = c.compress(data) + c.flush()
            hdrs.append("Content-Encoding: gzip")
        elif enc < 0.12:
            data = zlib.compress(data)
            hdrs.append("Content-Encoding: deflate")
        elif enc < 0.14:
            hdrs.append("Content-Encoding: " + rng.choice(["gzip", "deflate", "br", ""]))
        n = str(len(data)) if fix or rng.random() < 0.8 else rng.choice(NUMS + [str(len(data) + rng.randint(-9, 9))])
        hdrs.append("Content-Length: " + n)
    if rng.random() < 0.1:
        hdrs.append("X-Request-ID: " + "r" * rng.choice([1, 5, 63, 64, 65, 300]))
    if rng.random() < 0.05:
        hdrs.append("Connection: close")
    rng.shuffle(hdrs)
    return ("%s %s HTTP/1.1\r\n%s\r\n\r\n" % (method, path, "\r\n".join(hdrs))).encode("latin1", "replace") + data


def mutate(rng, b, other=b""):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        n = len(b)
        i = rng.randint(0, n)
        j = min(n, i + rng.choice([1, 1, 2, 4, 16, 64, 300]))
        k = rng.random()
        if k < 0.12 and n:
            b[min(i, n - 1)] ^= 1 << rng.randrange(8)
        elif k < 0.22:
            del b[i:j]
        elif k < 0.30:
            b[i:i] = b[i:j] * rng.choice([1, 1, 2, 20])
        elif k < 0.55:
            b[i:i] = rng.choice(TOKENS).encode("latin1")
        elif k < 0.70:
            m = list(re.finditer(rb"-?\d+(\.\d+)?", bytes(b)))
            if m:
                x = rng.choice(m)
                b[x.start():x.end()] = rng.choice(NUMS).encode()
        elif k < 0.78:
            b[i:j] = rng.choice(TOKENS).encode("latin1")
        elif k < 0.84:
            del b[i:]
        elif k < 0.90:
            b[i:i] = bytes([rng.choice(b"a0.{[\"\\ (=,*\n")]) * rng.choice([10, 70, 330, 1100, 5000, 20000])
        elif k < 0.95 and other:
            x = rng.randint(0, len(other))
            b[i:j] = other[x:x + rng.choice([5, 30, 200])]
        else:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 30])))
    return bytes(b)


def gen_msg(rng):
    port = rng.choice(["http"] * 7 + ["tcp", "line", "udp"])
    x = rng.random()
    other = (get_query(rng)[1] + post_query(rng)[2] + put(rng) + ilp(rng)).encode("latin1", "replace")
    if port == "http":
        kind = rng.choice(["get", "get", "post", "post", "plain", "json", "line", "misc", "misc"])
        if kind == "get":
            q = get_query(rng)
        elif kind == "post":
            q = post_query(rng)
        elif kind == "plain":
            q = ("POST", "/api/put", "\n".join(put(rng) for _ in range(rng.choice([1, 2, 10]))) + rng.choice(["\n", ""]))
        elif kind == "json":
            b = ",".join(jdp(rng) for _ in range(rng.choice([1, 1, 2, 10])))
            q = ("POST", "/api/put", "[" + b + "]" if rng.random() < 0.8 else b)
        elif kind == "line":
            q = ("POST", "/api/write", "\n".join(ilp(rng) for _ in range(rng.choice([1, 2, 10]))) + rng.choice(["\n", ""]))
        else:
            q = misc(rng)
        method, path, body = q
        if x < 0.15:
            b = http_bytes(rng, method, path, body, False)
        elif x < 0.75:
            if body:
                body = mutate(rng, body.encode("latin1", "replace"), other)
            else:
                path = mutate(rng, path.encode("latin1", "replace"), other).decode("latin1")
            b = http_bytes(rng, method, path, body)
        elif x < 0.97:
            b = mutate(rng, http_bytes(rng, method, path, body), other)
        else:
            b = bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 60, 500])))
    else:
        one = ilp if port == "line" else put
        n = 1 if port == "udp" else rng.choice([1, 1, 3, 10])
        text = "\n".join(one(rng) for _ in range(n)) + "\n"
        if port == "udp":
            text = text[4:]
        b = text.encode("latin1", "replace")
        if x < 0.85:
            b = mutate(rng, b, other)
        elif x < 0.9:
            b = bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 60, 500])))
        elif x < 0.93 and port != "udp":
            b = rng.choice([b"a", b"put ", b" ", b"\n", b"\0", b"=", b","]) * rng.choice([1000, 20000, 140000])
        if port != "udp" and rng.random() < 0.8:
            b += b"\n"
    if b"stop" in b or b"diedie" in b or b"keep" in b or b"cfg" in b or b"cmd=l" in b:
        return None
    m = {"p": port, "b": b.decode("latin1")}
    if rng.random() < 0.15:
        m["cut"] = rng.randrange(1000000)
    return m


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    conf["udp.server.enabled"] = "true"
    conf["http.listener.count"] = rng.choice([1, 2])
    conf["http.responders.per.listener"] = rng.choice([1, 2])
    if rng.random() < 0.4:
        conf["tcp.buffer.size"] = rng.choice(["8kb", "16kb", "64kb"])
    msgs = []
    for _ in range(rng.choice([40, 120, 250])):
        m = gen_msg(rng)
        if m:
            msgs.append(m)
    return {"conf": conf, "msgs": msgs, "tick": rng.choice([0, 601, 3601, 90000]), "seed": rng.randint(0, 1 << 30)}


KEEP = [{"m": "keep.a", "t": {"host": "a"}}, {"m": "keep.a", "t": {"host": "b", "dc": "x"}}, {"m": "keep.b", "t": {}}, {"m": "keep.c", "t": {"h": "q", "_field": "f"}}]


class Hostile:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx

    def store(self, w, rng, n, tag):
        unit = 1000 if w.ms else 1
        for j in range(len(KEEP)):
            pts = [[j, (NOW - 3600 * rng.randint(1, 30) + k * 7) * unit, rng.randint(-999, 999)] for k in range(n)]
            w.put("line" if "_field" in KEEP[j]["t"] else rng.choice(["plain", "json"]), pts)

    def send(self, w, m):
        b, sv = m["b"].encode("latin1"), w.sv
        if m["p"] == "udp":
            with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as s:
                s.sendto(b[:1400], ("127.0.0.1", sv.udp_port))
            return
        port = {"http": sv.http_port, "tcp": sv.tcp_port, "line": sv.line_port}[m["p"]]
        try:
            s = socket.create_connection(("127.0.0.1", port), timeout=5)
        except OSError:
            if m["p"] == "http" or not sv.alive():
                raise
            s = sv.telnet(m["p"])
        try:
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if "cut" in m and len(b) > 1:
                k = 1 + m["cut"] * (len(b) - 1) // 1000000
                s.sendall(b[:k])
                time.sleep(0.003)
                s.sendall(b[k:])
            else:
                s.sendall(b)
            s.settimeout(0.03 if m["p"] == "http" else 0.002)
            s.recv(1 << 16)
        except OSError:
            pass
        finally:
            s.close()

    def probe(self, w, what):
        """A well-formed request on a fresh connection."""
        c = None
        try:
            c = Conn(w.sv.http_port, probe=w.sv.failure)
            r = c.request("GET", "/api/aggregators")
            if r.status != 200 or "sum" not in parse_json(r.body):
                raise Violation("%s: list of aggregators answered %s" % (what, r))
        except (OSError, HttpError, ConnectionError) as e:
            raise Violation("%s: the server does not answer any more: %s %s" % (what, e, w.sv.failure()))
        finally:
            if c:
                c.close()

    def ports(self, w, rng):
        """Every port still takes points."""
        unit = 1000 if w.ms else 1
        t0 = (NOW - 40 * 3600) * unit
        want = {}
        for k, p in enumerate(("tcp", "line", "udp")):
            s = {"m": "keep.p%d" % k, "t": {"z": "y"}}
            t, v = t0 + rng.randint(0, 999) * unit, rng.randint(1, 99)
            if p == "line":
                s["t"]["_field"] = "f"

            def push():
                if p == "udp":
                    w.sv.udp(hist.put_line(s, t, v)[4:])
                else:
                    with w.sv.telnet(p) as c:
                        c.sendall(((hist.put_line(s, t, v) if p == "tcp" else hist.ilp_line(s, t, v, w.ms)) + "\n").encode())
            push()
            start, n, wait = time.monotonic(), 0, 0.002
            while True:
                got = w.sv.raw(s["m"], t - 1, t + 1, ms=w.ms)
                if got.get(frozenset(s["t"].items()), {}).get(t) == v:
                    break
                dt = time.monotonic() - start
                if dt > PATIENCE:
                    raise Violation("a point sent to the %s port does not appear; asked for it: %s" % (p, str(got)[:300]))
                if dt > 2 * (n + 1) and p == "udp" and n < 6:
                    push()
                    n += 1
                time.sleep(wait)
                wait = min(0.2, wait * 2)
            w.model.put(s, t, float(v))


def run(case, ctx):
    case = dict(case, series=KEEP)
    h = Hostile(case, ctx)
    rng = random.Random(case["seed"])
    with World(case, ctx, variant="asan", env=ENV) as w:
        w.start()
        h.store(w, rng, 30, "a")
        step = 20
        for k in range(0, len(case["msgs"]), step):
            part = case["msgs"][k:k + step]
            for m in part:
                try:
                    h.send(w, m)
                except OSError as e:
                    if not w.sv.alive() or w.sv.failure():
                        raise Violation("process ended at or before %s message %r: %s" % (m["p"], m["b"][:300], w.sv.failure()))
                    raise Violation("no connection to the %s port: %s" % (m["p"], e))
                ctx.label("to_" + m["p"])
            h.probe(w, "after messages %d to %d" % (k, k + len(part) - 1))
            if k == step:
                h.store(w, rng, 10, "b")
            if case.get("tick") and k % (3 * step) == step:
                w.advance(case["tick"])
                time.sleep(0.03)
                w.sv.admin("cp")
        h.ports(w, rng)
        h.store(w, rng, 5, "c")
        w.check_raw()
        w.step({"op": "restart"})
        w.check_raw(what="after a restart, ")
        w.sv.admin("cp")
        w.sv.stop()
        ctx.nontrivial = len(case["msgs"]) >= 30
