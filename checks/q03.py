"""Q03: grouping and aggregation."""
from vt import hist, query as Q
from vt.hist import World
from vt.runner import Violation

ID = "Q03"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated populations of series with holes, generated groupings and every "
             "aggregator, compared with naive definitions")
LEVEL_NOTE = ("Populations of up to 24 series and 2500 points with 40 queries each, by POST and GET; topN/bottomN are "
              "only held to returning whole series and never preferring a series that lies entirely on the wrong side; "
              "sampling, not exhaustive.")
RULE = ("a query counts when it forms a group of at least two series with some timestamp missing in one of them; a case "
        "counts when at least 5 of its queries do")
N = {"quick": 1600, "thorough": 16000}
SHRINK = ["queries", "ops", "ops.*.pts", "series"]

AGGS = ["avg", "count", "dev", "max", "min", "sum", "p25", "p50", "p75", "p90", "p95", "p99", "p999", "none"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    nk = rng.randint(1, 3)
    keys = ["h", "d", "e"][:nk]
    seen, series = set(), []
    for _ in range(rng.choice([1, 2, 4, 8, 24])):
        ks = keys if rng.random() < 0.7 else rng.sample(keys, rng.randint(1, nk))
        s = {"m": "m", "t": {k: k + rng.choice("1234") for k in ks}}
        if rng.random() < 0.05:
            s["t"]["_field"] = rng.choice("fg")
        if hist.M.skey(s) not in seen:
            seen.add(hist.M.skey(s))
            series.append(s)
    start = hist.NOW - rng.randint(0, 3 * hist.DAY)
    ops = Q.gen_grid_ops(rng, ms, series, start, rng.choice([3, 20, 100]), whole=None if ms else True,
                         late=rng.choice([0, 0, 0, 0.1]))
    times = Q.times_of(ops) or [start * (1000 if ms else 1)]
    whole = all(t % 1000 == 0 for t in times) if ms else True
    queries = []
    for _ in range(40):
        lo, hi = Q.gen_range(rng, ms, times) if rng.random() < 0.6 else (min(times, default=1), max(times, default=2))
        sub = {"metric": "m", "aggregator": rng.choice(AGGS), "tags": {}}
        if rng.random() < 0.1:
            sub["aggregator"] = rng.choice(["top1", "top3", "bottom1", "bottom3", "top5", "bottom9"])
        for k in keys:
            x = rng.random()
            if x < 0.35:
                sub["tags"][k] = "*"
            elif x < 0.45:
                sub["tags"][k] = k + rng.choice("1234")
            elif x < 0.6:
                sub["tags"][k] = "|".join(k + c for c in rng.sample("1234", 2))
            elif x < 0.65:
                sub["tags"][k] = "not_literal_or(%s1)" % k
        if rng.random() < 0.2:
            sub["downsample"] = rng.choice(["1m-sum", "10s-avg", "1h-max", "1m-avg-zero", "30s-count"])
            sub["rollupUsage"] = "ROLLUP_RAW"
            if "zero" in sub["downsample"] and (hi - lo) > 20000 * (1000 if ms else 1):
                sub["downsample"] = "6h-avg-zero"
        q = {"lo": lo, "hi": hi, "get": rng.random() < 0.3}
        q["msResolution"] = ms if (rng.random() < 0.6 or not (whole or "downsample" in sub)) else not ms
        if q["get"] and sub["tags"] and rng.random() < 0.5:
            ng = rng.choice(sorted(sub["tags"]))
            sub["nongroup"] = [ng]
        queries.append([q, sub])
    return {"conf": conf, "series": series, "ops": ops, "queries": queries, "restart": rng.random() < 0.3}


def check_top(w, q, sub):
    agg = sub["aggregator"]
    top = agg.startswith("top")
    n = int(agg.lstrip("topbm"))
    flat = dict(sub, aggregator="none")
    exp = {frozenset(t.items()): p for t, _, p in Q.evaluate(w.model, q, flat) if p}
    got = {k[1]: dict(v[0][1]) for k, v in Q.canon(Q.ask(w.sv, q, sub)).items()}
    if len(got) != min(n, len(exp)):
        raise Violation("%r: %d series returned, %d of %d expected" % (sub, len(got), min(n, len(exp)), len(exp)))
    for k, p in got.items():
        if k not in exp:
            raise Violation("%r: unexpected series %s" % (sub, sorted(k)))
    Q.compare([(dict(k), [], exp[k]) for k in got], [{"metric": "m", "tags": dict(k), "aggregateTags": [], "dps": p} for k, p in got.items()],
              "m", Q.tolerance(w.model, flat, []), what="%r: " % sub)
    for k in got:
        for x in exp:
            if x in got:
                continue
            wrong = min(exp[x].values()) > max(exp[k].values()) + 1e-3 if top else max(exp[x].values()) < min(exp[k].values()) - 1e-3
            if wrong:
                raise Violation("%r: %s returned but not %s" % (sub, sorted(k), sorted(x)))


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        for op in case["ops"]:
            w.step(op)
        if case.get("restart"):
            w.sv.restart()
        mixed = 0
        for q, sub in case["queries"]:
            if sub["aggregator"][:3] in ("top", "bot"):
                check_top(w, q, sub)
                ctx.label("top_bottom")
                continue
            exp = Q.evaluate(w.model, q, sub)
            Q.compare(exp, Q.ask(w.sv, q, sub), "m", Q.tolerance(w.model, sub, exp),
                      what="%s %r in [%d,%d]: " % ("GET" if q["get"] else "POST", sub, q["lo"], q["hi"]))
            per = {k: {t for t in p if q["lo"] <= t <= q["hi"]} for k, p in Q.select(w.model, sub).items()}
            if sub["aggregator"] != "none":
                for _, _, members in Q.group({k: p for k, p in per.items() if p}, sub):
                    if len(members) > 1 and any(a != members[0] for a in members):
                        mixed += 1
                        break
        w.sv.stop()
        ctx.label("queries", len(case["queries"]))
        ctx.label("groups_with_holes", mixed)
        ctx.nontrivial = mixed >= 5
