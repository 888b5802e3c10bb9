"""C03: queries running beside maintenance never return torn or missing data."""
import json
import time

from vt import conc, hist
from vt import model as M
from vt.hist import World, DAY, NOW
from vt.runner import Violation
from vt.server import parse_json
from checks import c01

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing of concurrent programs: generated readers and writers run beside maintenance that a moved clock and "
             "the admin interface set off again and again, with threads held back at random; raw answers are judged against the points they "
             "must and may contain, downsampled answers against the answers given before maintenance began")
LEVEL_NOTE = ("Up to 6 clients with up to 30 queries each, up to 20 days and 600 points, up to 30 rounds of flushing, closing, unloading, "
              "archiving, purging and rolling up; schedules are sampled.")
RULE = "a case counts when at least 5 queries that returned points were in flight during a maintenance action"
N = {"quick": 600, "thorough": 5000}
SHRINK = ["programs", "acts", "programs.*", "load", "load.*.pts", "asks"]
SHRINK_TRIES = 6
CONFIRM = 25


def SELF_EVIDENT(text):
    return text.startswith(("client", "at the end", "after a restart", "query")) or conc.crashed(text)


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    conf["tsdb.timestamp.resolution"] = "millisecond"
    conf["http.listener.count"] = rng.choice([1, 2, 3])
    conf["http.responders.per.listener"] = rng.choice([1, 2, 3])
    conf["tsdb.flush.frequency"] = rng.choice(["1min", "5min"])
    conf["tsdb.thrashing.threshold"] = rng.choice(["1s", "1min"])
    conf["append.log.flush.frequency"] = rng.choice(["1min", "10min"])
    conf["tsdb.gc.frequency"] = rng.choice(["1min", "1h"])
    conf["ts.archive.threshold"] = rng.choice(["2s", "10min", "1h", "0s"])
    conf["tsdb.archive.threshold"] = rng.choice(["1d", "1w"])
    series = hist.gen_series(rng, rng.choice([1, 2, 4, 12]))
    load = hist.gen_days(rng, len(series), True)
    pts = [p for o in load for p in o["pts"]]
    if not pts:
        load = [{"op": "put", "via": "plain", "pts": [[0, NOW * 1000, 1]]}]
        pts = load[0]["pts"]
    days = sorted({p[1] // 1000 // DAY for p in pts})
    lo = days[0] * DAY * 1000
    if rng.random() < 0.2 and len(days) > 2:
        # the oldest days are purged meanwhile; nobody asks for those
        keep = rng.randint(1, len(days) - 1)
        conf["tsdb.retention.threshold"] = "%dd" % keep
        lo = days[-keep] * DAY * 1000
    static = rng.random() < 0.5
    hi = (days[-1] + 1) * DAY * 1000 - 1
    metrics = sorted({s["m"] for s in series})
    asks = []
    if static:
        for _ in range(4):
            d = rng.choice(days)
            a, b = rng.choice([(lo, hi), (max(lo, d * DAY * 1000), (d + 1) * DAY * 1000 - 1), (max(lo, d * DAY * 1000), hi)])
            if a > b:
                a, b = lo, hi
            # buckets that begin in a purged day would depend on when it goes
            asks.append({"start": a, "end": b, "msResolution": True, "queries": [
                {"metric": rng.choice(metrics), "aggregator": rng.choice(["none", "sum", "max"]),
                 "downsample": rng.choice(["1h", "6h", "1d"]) + "-" + rng.choice(["avg", "sum", "count", "max", "min"])}]})
    programs, used = [], {(p[0], p[1]) for p in pts}
    seq = 10 ** 6
    for c in range(rng.choice([1, 2, 4, 6])):
        prog = []
        writer = not static and c % 2 == 1
        for _ in range(rng.choice([8, 15, 30])):
            if writer and rng.random() < 0.7:
                new = []
                for _ in range(rng.choice([1, 3, 20])):
                    k = rng.randrange(len(series))
                    d = rng.choice(days) if rng.random() < 0.5 else days[-1]
                    t = d * DAY * 1000 + rng.randrange(DAY * 1000)
                    if t >= lo and (k, t) not in used:
                        used.add((k, t))
                        seq += 1
                        new.append([k, t, seq])
                if new:
                    prog.append({"op": "put", "via": "plain", "pts": new})
            elif asks and rng.random() < 0.4:
                prog.append({"op": "ask", "q": rng.choice(asks)})
            else:
                a, b = lo, hi
                if rng.random() < 0.4:
                    d = rng.choice([x for x in days if x * DAY * 1000 >= lo])
                    a, b = d * DAY * 1000, (d + rng.choice([1, 3])) * DAY * 1000 - 1
                prog.append({"op": "query", "m": rng.choice(metrics), "lo": a, "hi": b})
            if rng.random() < 0.5:
                prog.append({"op": "sleep", "us": rng.choice([100, 2000, 10000])})
        programs.append(prog)
    acts = []
    for _ in range(rng.choice([4, 12, 30])):
        x = rng.random()
        if x < 0.65:
            acts.append({"by": rng.choice([61, 301, 3601, 12 * 3600, DAY + 5])})
        elif x < 0.9 and rng.random() < 0.5:
            acts.append({"cmd": "rollup"})
        else:
            acts.append({"cmd": rng.choice(["append", "gc", "stat"])})
    return {"conf": conf, "series": series, "load": load, "lo": lo, "hi": hi, "programs": programs, "acts": acts, "asks": asks,
            "delays": conc.delays(rng)}


def table(body):
    out = {}
    for s in parse_json(body):
        out[json.dumps([s["metric"], s["tags"], sorted(s.get("aggregateTags", []))], sort_keys=True)] = {int(t): v for t, v in s["dps"].items()}
    return out


def differs(a, b):
    for k in set(a) | set(b):
        x, y = a.get(k, {}), b.get(k, {})
        if x.keys() != y.keys():
            return "%s: buckets %s before, %s now" % (k, sorted(x)[:6], sorted(y)[:6])
        for t in x:
            if not M.close(float(x[t]), float(y[t]), 1e-5, 1e-9):
                return "%s at %d: %r before, %r now" % (k, t, x[t], y[t])
    return None


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        for op in case["load"]:
            w.step(op)
        golden = {}
        for q in case["asks"]:
            r = w.sv.post("/api/query", json.dumps(q), [("Content-Type", "application/json")])
            if r.status != 200:
                raise Violation("query %s answered %s" % (json.dumps(q), r))
            golden[json.dumps(q)] = table(r.body)
        writes = conc.Writes(w.series)
        for key, pts in w.model.d.items():
            for t, v in pts.items():
                writes.d.setdefault(key, {})[t] = [(0.0, 0.0, v)]
        w.sv.set_ctl(**case["delays"])
        crew = conc.Crew(w, c01.equal_syncs(case["programs"]))
        crew.start()
        spans, k = [], 0
        while any(t.is_alive() for t in crew.threads) and k < 400:
            if not case["acts"]:
                break
            act = case["acts"][k % len(case["acts"])]
            k += 1
            a = time.monotonic()
            if "by" in act:
                w.advance(act["by"])
                time.sleep(0.025)
            else:
                try:
                    r = w.sv.admin(act["cmd"])
                except Exception:
                    if crew.failed is not None:
                        break
                    raise
                if r.status != 200:
                    raise Violation("admin %s answered %s" % (act["cmd"], r))
            spans.append((a, time.monotonic()))
        crew.join()
        w.sv.set_ctl(delay_every=0)
        same = w.close({0: max((abs(v) for p in w.model.d.values() for v in p.values()), default=0.0)})
        _, _, seen = conc.judge_all(w, crew.recs, same, writes)
        beside = 0
        for r in crew.recs:
            if r.op["op"] not in ("ask", "query") or r.status is None:
                continue
            beside += any(a < r.end and b > r.start for a, b in spans) and len(r.body) > 20
            if r.op["op"] == "ask":
                d = differs(golden[json.dumps(r.op["q"])], table(r.body))
                if d:
                    raise Violation("query %s: %s" % (json.dumps(r.op["q"]), d))
        conc.final(w, writes, same, "at the end: ", case["lo"], case["hi"])
        w.sv.restart()
        conc.final(w, writes, same, "after a restart: ", case["lo"], case["hi"])
        w.sv.stop()
        ctx.label("beside_maintenance", beside)
        ctx.label("actions", len(spans))
        ctx.label("points_seen", seen)
        ctx.nontrivial = beside >= 5
