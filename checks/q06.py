"""Q06: rollups against raw points."""
from vt import hist, query as Q
from vt.hist import World, DAY
from vt.runner import Violation

ID = "Q06"
LEVEL = "exploration"
TECHNIQUE = ("differential property-based testing: generated histories of writes over months, rollup runs and restarts; every "
             "generated query is asked with and without rollups and both answers are compared with naive definitions")
LEVEL_NOTE = ("Up to 5 series and 800 points over up to 14 days in up to 4 months, late and repeated points, up to 6 rollup "
              "runs and restarts, 12 queries at up to 5 places of the history; no crashes; sampling, not exhaustive.")
RULE = ("a case counts when at least 4 queries that could be served from rollups returned at least two buckets, one of them covering "
        "several points")
N = {"quick": 1600, "thorough": 16000}
SHRINK = ["ops", "ops.*.pts", "ops.*.queries", "series"]

MONTHS = [1698796800, 1701388800, 1704067200, 1706745600, 1709251200, 1711929600, 1714521600]    # 2023-11 .. 2024-05


def gen_queries(rng, ms, times, n):
    unit = 1000 if ms else 1
    out = []
    for _ in range(n):
        lo, hi = Q.gen_range(rng, ms, times) if rng.random() < 0.6 else (min(times), max(times))
        iv = rng.choice(["1h", "1h", "60m", "2h", "3h", "6h", "12h", "24h", "1d", "1d", "1d", "2d", "3d", "7d", "1w", "30d", "0all"])
        spec = iv + "-" + rng.choice(["avg", "count", "max", "min", "sum"])
        w = Q.interval_of(spec, ms)
        if rng.random() < 0.2 and (w is None or (hi - lo) // w < 500):
            spec += "-zero"
        sub = {"metric": rng.choice(["m", "m", "k"]), "aggregator": rng.choice(["none", "none", "none", "sum", "max", "count"]),
               "downsample": spec}
        if rng.random() < 0.3:
            sub["tags"] = {"h": rng.choice(["*", "h0|h1", "h0"])}
        q = {"lo": lo, "hi": hi, "get": rng.random() < 0.2, "msResolution": ms}
        if w is not None and rng.random() < 0.3:
            q["msResolution"] = not ms
        out.append([q, sub])
    return out


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    if rng.random() < 0.5:
        conf["tsdb.rollup.buckets"] = rng.choice([1, 2, 7])
    if rng.random() < 0.2:
        conf["tsdb.rollup.level1.compressor.version"] = rng.choice([1, 2])
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    series = hist.gen_series(rng, rng.choice([1, 2, 3, 5]), ["m", "m", "k"])
    for s in series:
        s["t"].pop("_field", None)
    seen, uniq = set(), []
    for s in series:
        k = hist.M.skey(s)
        if k not in seen:
            seen.add(k)
            uniq.append(s)
    series = uniq
    months = sorted(rng.sample(MONTHS, rng.choice([1, 1, 2, 3, 4])))
    days = set()
    for m in months:
        for _ in range(rng.choice([1, 2, 4, 6])):
            d = m + rng.choice([0, 0, 1, rng.randint(2, 27), 26, 27, 28, 29]) * DAY
            if d < hist.NOW - DAY:
                days.add(d)
    days = sorted(days) or [MONTHS[0]]
    kinds = [rng.choice(hist.KINDS) for _ in series]
    vals = [0.0] * len(series)
    late, dup = rng.choice([0, 0, 0, 0.02, 0.2]), rng.choice([0, 0, 0, 0.03])
    dens = rng.choice([2, 8, 30, 80])
    pts, queue = [], []
    for d in days:
        for k in range(len(series)):
            if rng.random() < 0.8:
                n = max(1, min(int(rng.expovariate(1.0 / dens)), 150))
                lo, hi = sorted((rng.randint(0, 86399), rng.randint(0, 86399))) if rng.random() < 0.5 else (0, 86399)
                for _ in range(n):
                    t = (d + rng.randint(lo, hi)) * unit + (rng.randrange(unit) if rng.random() < 0.5 else 0)
                    if rng.random() < 0.1:
                        t = t - t % (3600 * unit) + rng.choice([0, 3600 * unit - 1])
                    pts.append([k, t])
    pts = sorted({(k, t) for k, t in pts}, key=lambda p: (p[1], p[0]))
    out = []
    for k, t in pts[:900]:
        vals[k] = hist.gen_value(rng, kinds[k], vals[k])
        out.append([k, t, vals[k]])
    for _ in range(int(len(out) * late)):
        a = rng.randrange(len(out))
        out.insert(min(len(out), a + rng.choice([1, 2, 5, 50, 500])), out.pop(a))
    for _ in range(int(len(out) * dup)):
        a = rng.randrange(len(out))
        k, t, v = out[a]
        out.insert(rng.randint(a + 1, len(out)), [k, t, hist.gen_value(rng, kinds[k], v)])
    times = [p[1] for p in out] or [days[0] * unit]
    ops, j = [], 0
    ask = rng.choice([0.05, 0.2])
    while j < len(out):
        n = rng.choice([1, 5, 20, 60, 300])
        ops.append({"op": "put", "via": rng.choice(["plain", "json", "gzip"]), "pts": out[j:j + n]})
        j += n
        x = rng.random()
        if x < 0.07:
            ops.append({"op": "restart", "how": rng.choice(["term", "int", "admin"])})
        if x < 0.1 or rng.random() < 0.05:
            ops.append({"op": "rollup", "n": rng.choice([1, 1, 3])})
        if rng.random() < ask and sum(o["op"] == "ask" for o in ops) < 4:
            ops.append({"op": "ask", "queries": gen_queries(rng, ms, times, 12)})
    if rng.random() < 0.6:
        if rng.random() < 0.7:
            ops.append({"op": "restart"})
        ops.append({"op": "rollup", "n": rng.choice([1, 2, 6])})
        if rng.random() < 0.5:
            # more points, also in months that have been rolled up
            more = []
            for _ in range(rng.choice([1, 3, 20])):
                k = rng.randrange(len(series))
                t = rng.choice(times) + rng.choice([0, 1, 60 * unit, 3600 * unit, -3600 * unit, DAY * unit, 5 * DAY * unit])
                if rng.random() < 0.3:
                    t = (hist.NOW - rng.randint(0, DAY)) * unit
                more.append([k, t, hist.gen_value(rng, kinds[k], vals[k])])
            ops.append({"op": "put", "via": "plain", "pts": more})
            if rng.random() < 0.5:
                ops.append({"op": "ask", "queries": gen_queries(rng, ms, times, 12)})
            if rng.random() < 0.5:
                ops.append({"op": "restart"})
            if rng.random() < 0.5:
                ops.append({"op": "rollup", "n": rng.choice([1, 2, 6])})
    ops.append({"op": "ask", "queries": gen_queries(rng, ms, times, 12)})
    return {"conf": conf, "series": series, "ops": ops}


def ask(w, ctx, queries):
    good = 0
    for q, sub in queries:
        exp = Q.evaluate(w.model, q, sub)
        tol = Q.tolerance(w.model, sub, exp)
        name = "%s %r in [%d,%d] %s: " % ("GET" if q["get"] else "POST", sub, q["lo"], q["hi"], "ms" if q["msResolution"] else "s")
        Q.compare(exp, Q.ask(w.sv, q, sub), sub["metric"], tol, what="with rollups, " + name)
        Q.compare(exp, Q.ask(w.sv, q, dict(sub, rollupUsage="ROLLUP_RAW")), sub["metric"], tol, what="from raw points, " + name)
        for p in Q.select(w.model, sub).values():
            b = Q.downsample(p, sub["downsample"].split("-")[0] + "-count", q["lo"], q["hi"], w.ms)
            if len(b) >= 2 and max(b.values()) > 1:
                good += 1
                break
    ctx.label("queries", len(queries))
    return good


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        good = 0
        for op in case["ops"]:
            if op["op"] == "ask":
                good += ask(w, ctx, op["queries"])
            elif op["op"] == "rollup":
                for _ in range(op["n"]):
                    r = w.sv.admin("rollup")
                    if r.status != 200:
                        raise Violation("admin rollup answered %s" % r)
                    if b"no tsdb" not in r.body:
                        ctx.label("rollups_done")
            else:
                w.step(op)
        w.sv.stop()
        ctx.label("bucketing_queries", good)
        ctx.nontrivial = good >= 4
