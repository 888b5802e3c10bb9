"""P05: units and notations of time."""
import calendar
import datetime
import json
import socket
import time as _time
from zoneinfo import ZoneInfo

from vt import hist, model as M
from vt.hist import World
from vt.runner import Violation
from vt.server import HttpError, parse_json

ID = "P05"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing with an independent calendar: points written and ranges asked in seconds, milliseconds, microseconds "
             "and nanoseconds, relative to a stopped clock, and in calendar notation in many time zones")
LEVEL_NOTE = ("Instants from 1970-04-27, where the units become distinguishable, to 2200; local times that do not exist or exist twice are "
              "left out; 30 ranges per case; sampling, not exhaustive.")
RULE = ("a case counts when it stored points in at least two units and at least 5 ranges, given in two or more notations, cut between stored points")
N = {"quick": 1300, "thorough": 13000}
SHRINK = ["queries", "pts"]

PER = {"s": 1, "ms": 10 ** 3, "us": 10 ** 6, "ns": 10 ** 9}
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Europe/London", "Australia/Adelaide", "Pacific/Auckland", "America/Sao_Paulo",
         "Asia/Tokyo", "Pacific/Honolulu", "Africa/Lagos", "America/St_Johns", "UTC+1", "UTC-5", "UTC+11"]
FIRST, LAST = 10_022_400, 7_250_000_000          # 1970-04-27, the first day whose milliseconds all have 11 digits; 2199
REL = {"ms": 1, "s": 1000, "m": 60000, "h": 3600000, "d": 86400000, "w": 604800000, "n": 30 * 86400000, "y": 365 * 86400000}


def generate(rng, tier, i):
    ms = rng.random() < 0.5
    conf = {"tsdb.timestamp.resolution": "millisecond" if ms else "second", "tsdb.compressor.version": rng.choice(hist.CODECS)}
    zone = rng.choice([None, None] + ZONES)
    if zone:
        conf["tsdb.timezone"] = zone
    now_ns = hist.NOW * 10 ** 9 + rng.randrange(0, 400 * 86400 * 10 ** 9)
    # clusters of instants, so that ranges have something to cut
    pts, anchors = [], []
    for _ in range(rng.choice([1, 2, 4])):
        x = rng.random()
        if x < 0.5:
            a = now_ns // 10 ** 9 - rng.randint(0, 40 * 86400)
        elif x < 0.65:
            a = FIRST + rng.randint(0, 86400)
        elif x < 0.8:
            a = rng.randint(FIRST, LAST)
        else:
            d = datetime.datetime(rng.randint(1971, 2190), rng.choice([1, 2, 3, 12]), rng.choice([1, 28]), tzinfo=datetime.timezone.utc)
            a = int(d.timestamp()) + rng.choice([0, 86400, -1])
        anchors.append(a)
        step = rng.choice([1, 10 ** 3, 10 ** 6, 10 ** 9, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9])
        t = a * 10 ** 9 + rng.choice([0, rng.randrange(10 ** 9)])
        for _ in range(rng.choice([2, 6, 15])):
            unit = rng.choice(["s", "ms", "us", "ns"])
            q = 10 ** 9 // PER[unit]
            if FIRST * 10 ** 9 <= t < LAST * 10 ** 9:
                # put takes seconds and milliseconds only
                via = rng.choice(["json", "plain", "line", "line", "tcp"])
                if unit in ("us", "ns") and via == "tcp":
                    via = "line"
                pts.append([t - t % q, unit, via])
            t += step * rng.choice([1, 1, 2, 7]) + rng.choice([0, 0, rng.randrange(10 ** 6)])
    if not pts:
        pts.append([now_ns - now_ns % 10 ** 9, "s", "json"])
    queries = []
    for _ in range(30):
        ends = [gen_end(rng, pts, now_ns, zone, k) for k in range(2)]
        queries.append({"start": ends[0], "end": ends[1] if rng.random() < 0.85 else None, "get": rng.random() < 0.4,
                        "tz": rng.choice(ZONES) if rng.random() < 0.3 else None})
    return {"conf": conf, "now_ns": now_ns, "pts": pts, "queries": queries}


def gen_end(rng, pts, now_ns, zone, k):
    t = rng.choice(pts)[0] + rng.choice([0, 0, 1, -1]) * rng.choice([1, 10 ** 6, 10 ** 9, 3600 * 10 ** 9])
    x = rng.random()
    if x < 0.5:
        unit = rng.choice(["s", "ms", "us", "ns"])
        q = 10 ** 9 // PER[unit]
        return {"k": "num", "t": t - t % q, "unit": unit, "str": rng.random() < 0.5}
    if x < 0.75:
        u = rng.choice(["ms", "s", "m", "h", "d", "w", "n", "y"])
        d = max(0, (now_ns - t) // 10 ** 6)
        n = max(1, d // REL[u] + rng.choice([0, 0, 1]))
        return {"k": "ago", "n": n, "unit": u, "long": rng.random() < 0.2}
    return {"k": "cal", "t": t // 10 ** 9, "fmt": rng.choice(["ymd", "hm", "hms", "hms"]), "sep": rng.choice([" ", "-"])}


LONG = {"m": "min", "n": "month", "s": "sec", "h": "hour", "d": "day", "w": "week", "y": "year"}


def zone_of(tz):
    """UTC+1 is an hour ahead of UTC."""
    if tz[:4] in ("UTC+", "UTC-"):
        return datetime.timezone(datetime.timedelta(hours=int(tz[3:])))
    return ZoneInfo(tz)


def resolve(e, now_ns, ms, tz):
    """(text or number as sent, instant it denotes in units of storage), or None when it denotes none or several."""
    div = 10 ** 6 if ms else 10 ** 9
    if e["k"] == "num":
        n = e["t"] * PER[e["unit"]] // 10 ** 9
        if not (FIRST * 10 ** 9 <= e["t"] < LAST * 10 ** 9):
            return None
        if not e["str"] and n > 2 ** 53:
            # a number of nanoseconds is a double: keep away from where rounding could cross a unit
            r = e["t"] % div
            if r > div - 2000 or r < 2000:
                return None
        return (str(n) if e["str"] else n), e["t"] // div
    if e["k"] == "ago":
        back = e["n"] * REL[e["unit"]] // (1 if ms else 1000)
        t = now_ns // div - back
        if t < FIRST * (1000 if ms else 1):
            return None
        u = LONG.get(e["unit"], e["unit"]) if e["long"] else e["unit"]
        return "%d%s-ago" % (e["n"], u), t
    zi = zone_of(tz)
    loc = datetime.datetime.fromtimestamp(0, zi) + datetime.timedelta(0)
    if not (FIRST + 200000 <= e["t"] < LAST):
        return None
    loc = datetime.datetime.fromtimestamp(e["t"], zi).replace(tzinfo=None)
    if e["fmt"] == "ymd":
        loc = loc.replace(hour=0, minute=0, second=0)
    elif e["fmt"] == "hm":
        loc = loc.replace(second=0)
    inst = set()
    for fold in (0, 1):
        a = loc.replace(tzinfo=zi, fold=fold)
        u = int(a.timestamp())
        if datetime.datetime.fromtimestamp(u, zi).replace(tzinfo=None) != loc:
            return None
        inst.add(u)
    if len(inst) != 1:
        return None
    txt = loc.strftime("%Y/%m/%d") if e["fmt"] == "ymd" else loc.strftime("%Y/%m/%d" + e["sep"] + ("%H:%M" if e["fmt"] == "hm" else "%H:%M:%S"))
    return txt, inst.pop() * (1000 if ms else 1)


def tcp_put(sv, line):
    s = sv.telnet()
    s.sendall(line.encode())
    s.shutdown(socket.SHUT_WR)
    return s


def run(case, ctx):
    now_ns, zone = case["now_ns"], case["conf"].get("tsdb.timezone", "UTC")
    with World(case, ctx) as w:
        w.sv.set_ctl(freeze_ns=now_ns)
        w.sv.start()
        ms = w.ms
        div = 10 ** 6 if ms else 10 ** 9
        exp, units, waits = {}, set(), []
        for k, (t, unit, via) in enumerate(case["pts"]):
            n, v = t * PER[unit] // 10 ** 9, k + 1
            if via == "tcp":
                waits.append(tcp_put(w.sv, "put m %d %d h=a\n" % (n, v)))
                wait_for(w.sv, t // div, v, ms)
            else:
                if via == "json":
                    r = w.sv.post("/api/put", json.dumps({"metric": "m", "timestamp": n, "value": v, "tags": {"h": "a"}}),
                                  [("Content-Type", "application/json")])
                elif via == "plain":
                    r = w.sv.put_plain("put m %d %d h=a\n" % (n, v))
                else:
                    # the same instant in line protocol, as a series of its own
                    r = w.sv.write_line("l,h=a f=%d %d\n" % (v, n))
                if unit in ("us", "ns") and via != "line":
                    if r.status == 200:
                        raise Violation("a put in %s at %d, which is not taken, answered %s" % (unit, n, r))
                    ctx.label("refused")
                    continue
                if r.status != 200:
                    raise Violation("point at %d %s via %s answered %s" % (n, unit, via, r))
            exp.setdefault("l" if via == "line" else "m", {})[t // div] = float(v)
            units.add(unit)
        for s in waits:
            s.close()
        cut, kinds = 0, set()
        full = {"k": "num", "t": FIRST * 10 ** 9, "unit": "ms", "str": False}, {"k": "num", "t": (LAST - 1) * 10 ** 9, "unit": "ms", "str": False}
        for q in [{"start": full[0], "end": full[1], "get": False, "tz": None}] + case["queries"]:
            tz = q["tz"] or zone
            a = resolve(q["start"], now_ns, ms, tz)
            b = resolve(q["end"], now_ns, ms, tz) if q["end"] else (None, now_ns // div)
            if a is None or b is None or a[1] > b[1]:
                ctx.label("left_out")
                continue
            for m in sorted(exp):
                got, text = ask(w.sv, m, q, a[0], b[0])
                want = {t * (1 if ms else 1000): v for t, v in exp[m].items() if a[1] <= t <= b[1]}
                if got != want:
                    raise Violation("zone %s, now %d, %s: expected %r, got %r" % (tz, now_ns, text, show(want, got), show(got, want)))
                if 0 < len(want) < len(exp[m]):
                    cut += 1
                    kinds.add(q["start"]["k"])
            ctx.label("range_" + q["start"]["k"])
        w.sv.stop()
        ctx.label("cutting", cut)
        ctx.nontrivial = len(units) >= 2 and cut >= 5 and len(kinds) >= 2


def show(a, b):
    return sorted(x for x in a.items() if x not in b.items())[:6]


def wait_for(sv, t, v, ms):
    """Lines sent over TCP are not answered; wait until this one can be read."""
    end = _time.monotonic() + 30
    k = 1 if ms else 1000
    while True:
        q = {"start": t * k, "end": t * k, "msResolution": True, "queries": [{"metric": "m", "aggregator": "none"}]}
        for r in sv.query(q):
            if float(v) in r["dps"].values():
                return
        if _time.monotonic() > end:
            raise Violation("point at %d (unit of storage) sent over TCP is not stored there after 30 s" % t)
        _time.sleep(0.002)


def ask(sv, m, q, a, b):
    if q["get"]:
        text = "/api/query?start=%s&m=none:%s&msResolution=true" % (str(a).replace(" ", "-"), m)
        if b is not None:
            text += "&end=%s" % str(b).replace(" ", "-")
        if q["tz"]:
            text += "&tz=" + q["tz"]
        r = sv.get(text)
    else:
        body = {"start": a, "msResolution": True, "queries": [{"metric": m, "aggregator": "none"}]}
        if b is not None:
            body["end"] = b
        if q["tz"]:
            body["tz"] = q["tz"]
        text = json.dumps(body)
        r = sv.post("/api/query", text, [("Content-Type", "application/json")])
    if r.status != 200:
        raise HttpError("%s -> %s" % (text, r))
    ans = parse_json(r.body)
    if len(ans) > 1:
        raise Violation("%s: more than one series" % text)
    return ({int(t): v for t, v in ans[0]["dps"].items()} if ans else {}), text
