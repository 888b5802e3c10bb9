"""Q01: a raw query returns exactly the points of its range."""
from vt import hist, query as Q
from vt.hist import World
from vt.runner import Violation

ID = "Q01"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated histories, then generated time ranges that graze points, pages, half "
             "days and days, compared with the reference model")
LEVEL_NOTE = ("Random histories of up to about 1500 points over 1 to 6 days, or up to 40 unevenly spaced days, with 60 ranges each, all codecs, page sizes "
              "and both resolutions; sampling, not exhaustive.")
RULE = ("a range counts when it cuts the data: some points of the metric lie inside and some outside; a case counts "
        "when at least 5 of its ranges do")
N = {"quick": 2000, "thorough": 20000}
SHRINK = ["ranges", "ops", "ops.*.pts", "series"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    series = hist.gen_series(rng, rng.choice([1, 2, 4]))
    start = hist.NOW - rng.randint(0, 6 * hist.DAY)
    if rng.random() < 0.4:
        start = start - start % 43200 - rng.randint(0, 900)
    streams = [hist.Stream(rng, ms, start + rng.choice([0, 0, 7])) for _ in series]
    total = rng.choice([5, 30, 200, 600, 1500])
    if rng.random() < 0.3:
        batches = hist.gen_days(rng, len(series), ms)
    else:
        batches = hist.gen_batches(rng, streams, total, late=rng.choice([0, 0, 0.03, 0.3]), dup=rng.choice([0, 0, 0.05]))
    ops = []
    for b in batches:
        ops.append(b)
        if rng.random() < 0.04:
            ops.append({"op": "restart"})
    times = Q.times_of(ops)
    ranges = []
    unit = 1000 if ms else 1
    for _ in range(60):
        lo, hi = Q.gen_range(rng, ms, times, True)
        r = {"lo": lo, "hi": hi}
        x = rng.random()
        if x < 0.15:
            # the other unit: whole seconds for a millisecond store, any millisecond for a second store
            if ms:
                r = {"lo": lo // 1000, "hi": hi // 1000, "other": True}
            else:
                r = {"lo": lo * 1000 + rng.choice([0, 1, 999]), "hi": hi * 1000 + rng.choice([0, 1, 999]), "other": True}
        ranges.append(r)
    return {"conf": conf, "series": series, "ops": ops, "ranges": ranges}


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        for op in case["ops"]:
            w.step(op)
        cuts = 0
        for r in case["ranges"]:
            for m in w.model.metrics():
                lo, hi = r["lo"], r["hi"]
                if r.get("other"):
                    lo, hi = (lo * 1000, hi * 1000) if w.ms else (lo // 1000, hi // 1000)
                res = w.sv.query({"start": r["lo"], "end": r["hi"], "msResolution": w.ms,
                                  "queries": [{"metric": m, "aggregator": "none", "rollupUsage": "ROLLUP_RAW"}]})
                got = {}
                for s in res:
                    ts = [int(t) for t in s["dps"]]
                    if any(b <= a for a, b in zip(ts, ts[1:])):
                        raise Violation("metric %s in [%d,%d]: times not ascending" % (m, lo, hi))
                    k = frozenset(s["tags"].items())
                    if k in got:
                        raise Violation("metric %s in [%d,%d]: series %s twice" % (m, lo, hi, sorted(k)))
                    got[k] = {int(t): v for t, v in s["dps"].items()}
                exp = {k: {t: v for t, v in p.items() if lo <= t <= hi} for k, p in w.model.of_metric(m).items()}
                hist.M.expect_series(exp, got, "metric %s in [%d,%d]: " % (m, r["lo"], r["hi"]), w.close, w.model.of_metric(m))
                inside = sum(len(p) for p in exp.values())
                if 0 < inside < sum(len(p) for p in w.model.of_metric(m).values()):
                    cuts += 1
        w.sv.stop()
        ctx.label("ranges", len(case["ranges"]))
        ctx.label("cutting_ranges", cuts)
        ctx.nontrivial = cuts >= 5
