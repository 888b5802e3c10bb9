"""Q04: downsampling."""
from vt import hist, query as Q
from vt.hist import World

ID = "Q04"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated irregular series and generated downsampling specifications (interval, "
             "unit, function, fill, range), compared with naive definitions")
LEVEL_NOTE = ("Up to 6 series and 1500 points over up to 6 days with 50 queries each, computed from raw points (Q06 covers "
              "rollups); NaN-valued fills are only combined with ungrouped series; sampling, not exhaustive.")
RULE = ("a query counts when it returns at least two buckets one of which holds at least two points; a case counts when at "
        "least 5 of its queries do")
N = {"quick": 1600, "thorough": 16000}
SHRINK = ["queries", "ops", "ops.*.pts", "series"]

FUNCS = ["avg", "count", "dev", "first", "last", "max", "min", "sum", "p50", "p90", "p95", "p99", "p999", "none"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    series = hist.gen_series(rng, rng.choice([1, 2, 3, 6]), ["m"])
    start = hist.NOW - rng.randint(0, 6 * hist.DAY)
    if rng.random() < 0.5:
        start -= start % rng.choice([60, 3600, 86400])
    if rng.random() < 0.5:
        ops = Q.gen_grid_ops(rng, ms, series, start, rng.choice([3, 20, 100, 300]), late=rng.choice([0, 0, 0.1]))
    else:
        streams = [hist.Stream(rng, ms, start + rng.choice([0, 0, 7])) for _ in series]
        ops = list(hist.gen_batches(rng, streams, rng.choice([5, 60, 400, 1500]), late=rng.choice([0, 0, 0.03]), dup=rng.choice([0, 0.03])))
    times = Q.times_of(ops) or [start * unit]
    queries = []
    for _ in range(50):
        lo, hi = Q.gen_range(rng, ms, times) if rng.random() < 0.7 else (min(times), max(times))
        n = rng.choice([1, 1, 2, 5, 7, 10, 15, 30, 60, 90])
        u = rng.choice(["s", "s", "m", "m", "h", "d", "w"] + (["ms", "ms"] if ms else []))
        if u == "ms":
            n = rng.choice([1, 10, 100, 500, 1000, 1500, 60000])
        if u in ("d", "w"):
            n = rng.choice([1, 1, 2, 3])
        iv = "%d%s" % (n, u)
        if rng.random() < 0.05:
            lo = 0      # "from the beginning"
        if rng.random() < 0.07:
            iv = "0all"
        f = rng.choice(FUNCS)
        fill = rng.choice([None, None, None, "zero", "nan", "null"])
        spec = iv + "-" + f
        w = Q.interval_of(spec, ms)
        if fill and f != "none" and (w is None or (hi - lo) // w < 3000) and (lo > 0 or not ms):
            spec += "-" + fill
        elif rng.random() < 0.05:
            spec += "-none"
        agg = "none"
        if rng.random() < 0.25 and fill in (None, "zero"):
            agg = rng.choice(["sum", "max", "avg", "count"])
        sub = {"metric": "m", "aggregator": agg, "downsample": spec, "rollupUsage": "ROLLUP_RAW"}
        if rng.random() < 0.2:
            sub["tags"] = {"h": rng.choice(["*", "h0|h1", "h0"])}
        q = {"lo": lo, "hi": hi, "get": rng.random() < 0.3}
        # another unit in the answer only when it loses nothing
        exact = f != "none" and w is not None and (not ms or w % 1000 == 0)
        q["msResolution"] = (not ms) if exact and lo > 0 and rng.random() < 0.3 else ms
        queries.append([q, sub])
    return {"conf": conf, "series": series, "ops": ops, "queries": queries, "restart": rng.random() < 0.2}


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        for op in case["ops"]:
            w.step(op)
        if case.get("restart"):
            w.sv.restart()
        good = 0
        for q, sub in case["queries"]:
            exp = Q.evaluate(w.model, q, sub)
            Q.compare(exp, Q.ask(w.sv, q, sub), "m", Q.tolerance(w.model, sub, exp),
                      what="%s %r in [%d,%d] %s: " % ("GET" if q["get"] else "POST", sub, q["lo"], q["hi"], "ms" if q["msResolution"] else "s"))
            for p in Q.select(w.model, sub).values():
                n = len([t for t in p if q["lo"] <= t <= q["hi"]])
                b = len(Q.downsample(p, sub["downsample"].split("-")[0] + "-count", q["lo"], q["hi"], w.ms))
                if b >= 2 and n > b:
                    good += 1
                    break
        w.sv.stop()
        ctx.label("queries", len(case["queries"]))
        ctx.label("bucketing_queries", good)
        ctx.nontrivial = good >= 5
