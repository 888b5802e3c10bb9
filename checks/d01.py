"""D01: graceful restarts change nothing."""
import math

from vt import hist
from vt.hist import World

ID = "D01"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing: generated histories with graceful stops (signals, admin command) at "
             "arbitrary places against the real server; reference model plus before = after comparison")
LEVEL_NOTE = ("Random histories of up to about 1500 writes with up to 6 restarts, all codecs, page sizes and both "
              "resolutions; sampling, not exhaustive.")
RULE = "a case counts when it restarted at least once with stored points and wrote more points to an old series afterwards"
N = {"quick": 1200, "thorough": 12000}
SHRINK = ["ops", "ops.*.pts", "series"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    if rng.random() < 0.3:
        conf["tsdb.rollup.enabled"] = rng.choice(["true", "false"])
    if rng.random() < 0.2:
        conf["append.log.enabled"] = "false"
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    series = hist.gen_series(rng, rng.choice([1, 2, 4, 12]))
    start = hist.NOW - rng.randint(0, 6 * hist.DAY)
    special = rng.choice([0, 0, 0, 0.02, 0.2])
    streams = [hist.Stream(rng, ms, start + rng.randint(0, 500), special=special) for _ in series]
    total = rng.choice([10, 60, 200, 600, 1500])
    dup = rng.choice([0, 0, 0.05])
    late = rng.choice([0, 0, 0.05, 0.3])
    ops = []
    for b in hist.gen_batches(rng, streams, total, late=late, dup=dup, maxbatch=100):
        ops.append(b)
        x = rng.random()
        if x < 0.12:
            ops.append({"op": "restart", "how": rng.choice(["term", "int", "admin"]), "down": rng.choice([0, 0, 5, 7200, 2 * hist.DAY])})
        elif x < 0.2:
            ops.append({"op": "check"})
        elif x < 0.25:
            ops.append({"op": "admin", "cmd": "append"})
    return {"conf": conf, "series": series, "ops": ops}


def queries(w):
    """A fixed panel of aggregated queries over each metric."""
    lo, hi = w.span()
    out = []
    for m in w.model.metrics():
        for sub in ({"aggregator": "sum"}, {"aggregator": "none", "downsample": "1h-avg", "rollupUsage": "ROLLUP_RAW"},
                    {"aggregator": "max", "tags": {"h": "*"}}, {"aggregator": "count", "downsample": "10m-sum-zero", "rollupUsage": "ROLLUP_RAW"}):
            if "zero" in sub.get("downsample", "") and (hi - lo) / (1000 if w.ms else 1) > 3 * hist.DAY:
                continue
            out.append({"start": lo, "end": hi + 1, "msResolution": w.ms, "queries": [dict(sub, metric=m)]})
    return out


def canon(answer):
    return sorted((r["metric"], tuple(sorted(r["tags"].items())), tuple(sorted(r["aggregateTags"])),
                   tuple((int(t), v) for t, v in sorted(r["dps"].items(), key=lambda x: int(x[0])))) for r in answer)


def same(a, b, tol):
    if len(a) != len(b):
        return "%d groups before, %d after" % (len(a), len(b))
    for x, y in zip(a, b):
        if x[:3] != y[:3]:
            return "groups differ: %r before, %r after" % (x[:3], y[:3])
        if [t for t, _ in x[3]] != [t for t, _ in y[3]]:
            return "times of %r differ: %d before, %d after" % (x[:3], len(x[3]), len(y[3]))
        for (t, v), (_, u) in zip(x[3], y[3]):
            if not hist.M.close(v, u, tol, 1e-9):
                return "%r at %d: %r before, %r after" % (x[:3], t, v, u)
    return None


def run(case, ctx):
    from vt.runner import Violation
    with World(case, ctx) as w:
        w.start()
        restarted = more = 0
        for op in case["ops"]:
            if op["op"] == "restart" and w.model.d:
                finite = all(math.isfinite(v) for p in w.model.d.values() for v in p.values())
                # sums of NaN and infinities depend on the order they are taken in
                qs = queries(w) if finite else []
                scale = max(abs(v) for p in w.model.d.values() for v in p.values())
                before = [canon(w.sv.query(q)) for q in qs]
                w.step(op)
                for q, b in zip(qs, before):
                    d = same(b, canon(w.sv.query(q)), 1e-6 + 1e-7 * scale)
                    if d:
                        raise Violation("query %r: %s" % (q, d))
                w.check_raw(what="after a restart: ")
                restarted += 1
            else:
                w.step(op)
                more += bool(restarted and op["op"] == "put")
        w.check_raw()
        w.sv.restart()
        w.check_raw(what="after the final restart: ")
        w.sv.stop()
        ctx.label("restarts", restarted + 1)
        ctx.nontrivial = bool(more) or restarted > 0
