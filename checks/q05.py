"""Q05: rates."""
from vt import hist, query as Q
from vt.hist import World

ID = "Q05"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated counters with resets and wraps, generated rate options, both storage and "
             "answer resolutions, compared with the naive definition")
LEVEL_NOTE = "Up to 5 series and 600 points with 40 queries each; sampling, not exhaustive."
RULE = "a query counts when it yields at least two rates; a case counts when at least 5 of its queries do"
N = {"quick": 1600, "thorough": 16000}
SHRINK = ["queries", "ops", "ops.*.pts", "series"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    series = hist.gen_series(rng, rng.choice([1, 2, 5]), ["m"])
    start = hist.NOW - rng.randint(0, 3 * hist.DAY)
    whole = rng.random() < 0.6
    top = rng.choice([100, 255, 65535, 1000000])
    t, ops, n = start * unit, [], rng.choice([1, 2, 10, 60, 200])
    vals = [rng.randint(0, top) for _ in series]
    pts = []
    step = rng.choice([1, 10, 60])
    for _ in range(n):
        t += step * unit if rng.random() < 0.9 else rng.randint(1, 5000) * unit
        if ms and not whole:
            t += rng.randint(0, 999)
        for k in range(len(series)):
            if rng.random() < 0.85:
                x = rng.random()
                if x < 0.1:
                    vals[k] = rng.randint(0, 10)
                elif x < 0.2:
                    vals[k] = (vals[k] + rng.randint(1, top)) % (top + 1)
                else:
                    vals[k] += rng.choice([0, 1, 5, 100, 0.5])
                pts.append([k, t, vals[k]])
    k = 0
    while k < len(pts):
        m = rng.choice([20, 200])
        ops.append({"op": "put", "via": rng.choice(["plain", "json"]), "pts": pts[k:k + m]})
        k += m
    times = Q.times_of(ops) or [t]
    queries = []
    for _ in range(40):
        lo, hi = Q.gen_range(rng, ms, times) if rng.random() < 0.5 else (min(times), max(times))
        sub = {"metric": "m", "aggregator": rng.choice(["none", "none", "sum", "avg", "max"]), "rate": True}
        if rng.random() < 0.3:
            sub["tags"] = {"h": "*"}
        if rng.random() < 0.6:
            o = {"counter": rng.random() < 0.85}
            if rng.random() < 0.6:
                o["counterMax"] = rng.choice([top, top, 65535, 2 ** 32, 2 ** 53])
            if rng.random() < 0.5:
                o["resetValue"] = rng.choice([1, 10, 1000, 100000])
            if rng.random() < 0.3:
                o["dropResets"] = rng.random() < 0.7
            sub["rateOptions"] = o
        if rng.random() < 0.2:
            sub["downsample"] = rng.choice(["1m-avg", "10s-max", "5m-sum"])
            sub["rollupUsage"] = "ROLLUP_RAW"
        q = {"lo": lo, "hi": hi, "get": rng.random() < 0.3 and "rateOptions" not in sub}
        # another unit in the answer only when it loses nothing
        exact = whole or not ms or "downsample" in sub
        q["msResolution"] = (not ms) if exact and rng.random() < 0.4 else ms
        queries.append([q, sub])
    return {"conf": conf, "series": series, "ops": ops, "queries": queries}


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        for op in case["ops"]:
            w.step(op)
        good = 0
        for q, sub in case["queries"]:
            exp = Q.evaluate(w.model, q, sub)
            Q.compare(exp, Q.ask(w.sv, q, sub), "m", Q.tolerance(w.model, sub, exp), rel=1e-8,
                      what="%s %r in [%d,%d] %s: " % ("GET" if q["get"] else "POST", sub, q["lo"], q["hi"], "ms" if q["msResolution"] else "s"))
            if any(len(p) >= 2 for _, _, p in exp):
                good += 1
        w.sv.stop()
        ctx.label("queries", len(case["queries"]))
        ctx.label("rate_queries", good)
        ctx.nontrivial = good >= 5
