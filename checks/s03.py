"""S03: answers do not depend on arrival order."""
from vt import hist, query as Q
from vt.hist import World
from vt.runner import Violation

ID = "S03"
LEVEL = "exploration"
TECHNIQUE = ("metamorphic property-based testing: the same generated points are written to two metrics of one server in "
             "different orders and batches, and every generated query must get the same answer from both")
LEVEL_NOTE = ("Up to 5 series and 1200 points over up to 6 days, orders from nearly sorted to fully shuffled and reversed, "
              "with snapshots and restarts in between; 25 queries per case; sampling, not exhaustive.")
RULE = ("a case counts when at least 30 points arrived in different orders, some of them out of time order, and at least 10 "
        "queries returned data")
N = {"quick": 1600, "thorough": 16000}
SHRINK = ["queries", "orders.*", "orders.*.*.pts"]


def permute(rng, pts, how):
    pts = list(pts)
    if how == "sorted":
        pts.sort(key=lambda p: (p[1], p[0]))
    elif how == "series":
        pts.sort(key=lambda p: (p[0], p[1]))
    elif how == "reversed":
        pts.sort(key=lambda p: (-p[1], p[0]))
    elif how == "shuffled":
        rng.shuffle(pts)
    elif how == "near":
        pts.sort(key=lambda p: (p[1], p[0]))
        for _ in range(max(1, len(pts) // 20) if pts else 0):
            a = rng.randrange(len(pts))
            pts.insert(min(len(pts), a + rng.randint(1, 60)), pts.pop(a))
    elif how == "blocks":
        pts.sort(key=lambda p: (p[1], p[0]))
        n = max(1, len(pts) // rng.choice([2, 3, 7, 20]))
        b = [pts[k:k + n] for k in range(0, len(pts), n)]
        rng.shuffle(b)
        pts = [p for x in b for p in x]
    ops, k = [], 0
    while k < len(pts):
        n = rng.choice([1, 10, 60, 300]) if len(pts) < 300 else rng.choice([30, 100, 400])
        ops.append({"op": "put", "via": rng.choice(["plain", "json", "gzip"]), "pts": pts[k:k + n]})
        k += n
        if rng.random() < 0.05:
            ops.append({"op": rng.choice(["restart", "append"])})
    return ops


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    series = hist.gen_series(rng, rng.choice([1, 2, 3, 5]), ["m"])
    start = hist.NOW - rng.choice([0, 1, 6, 45]) * hist.DAY - rng.randint(0, hist.DAY)
    if rng.random() < 0.5:
        ops = Q.gen_grid_ops(rng, ms, series, start, rng.choice([5, 30, 150]))
    else:
        streams = [hist.Stream(rng, ms, start) for _ in series]
        ops = list(hist.gen_batches(rng, streams, rng.choice([5, 60, 300, 1200])))
    pts = [p for o in ops for p in o["pts"]]
    how = rng.sample(["sorted", "sorted", "series", "reversed", "shuffled", "near", "near", "blocks"], 2)
    orders = [permute(rng, pts, h) for h in how]
    times = Q.times_of(ops) or [start * unit]
    queries = []
    for _ in range(25):
        lo, hi = Q.gen_range(rng, ms, times) if rng.random() < 0.6 else (min(times), max(times))
        sub = {"metric": "m", "aggregator": rng.choice(["none", "none", "sum", "avg", "max", "min", "count", "dev", "p90"])}
        if rng.random() < 0.3:
            sub["tags"] = {"h": rng.choice(["*", "h0|h1", "h0"])}
        if rng.random() < 0.5:
            w = rng.choice(["1s", "30s", "1m", "5m", "1h", "1h", "6h", "1d", "1d"])
            sub["downsample"] = w + "-" + rng.choice(["avg", "sum", "min", "max", "count", "first", "last", "dev", "p50"])
            if rng.random() < 0.2 and w in ("1h", "6h", "1d"):
                sub["downsample"] += "-zero"
            if rng.random() < 0.3:
                sub["rollupUsage"] = "ROLLUP_RAW"
        if rng.random() < 0.2:
            sub["rate"] = True
        queries.append([{"lo": lo, "hi": hi, "get": False, "msResolution": ms}, sub])
    return {"conf": conf, "series": series, "orders": orders, "how": how, "queries": queries,
            "mix": [rng.random() < 0.5 for _ in range(50)], "restart": rng.random() < 0.3}


def rename(s, m):
    return {"m": m, "t": s["t"]}


def run(case, ctx):
    a, b = (list(o) for o in case["orders"])
    n = len(case["series"])
    w = World(dict(case, series=[rename(s, "ma") for s in case["series"]] + [rename(s, "mb") for s in case["series"]]), ctx)
    with w:
        w.start()
        k = 0
        while a or b:
            first = (case["mix"] or [True])[k % max(1, len(case["mix"]))] if a and b else bool(a)
            op = (a if first else b).pop(0)
            k += 1
            if op["op"] == "put":
                w.put(op["via"], [[i if first else i + n, t, v] for i, t, v in op["pts"]])
            elif op["op"] == "restart":
                w.sv.restart()
            else:
                w.cp_all()
        if case["restart"]:
            w.sv.restart()
        # shrinking may have removed points from one order only
        ma, mb = w.model.of_metric("ma"), w.model.of_metric("mb")
        if ma != mb:
            return
        data = 0
        for q, sub in case["queries"]:
            x = Q.canon(Q.ask(w.sv, q, dict(sub, metric="ma")))
            y = Q.ask(w.sv, q, dict(sub, metric="mb"))
            exp = [(dict(key[1]), ak, dict(p)) for key, lst in x.items() for ak, p in lst]
            tol = 2 * Q.tolerance(w.model, dict(sub, metric="ma"), exp)
            Q.compare(exp, y, "mb", tol, what="%r in [%d,%d] (expected: order %s, returned: order %s): " % (
                sub, q["lo"], q["hi"], case["how"][0], case["how"][1]))
            data += any(p for _, _, p in exp)
        w.sv.stop()
        npts = sum(len(p) for p in ma.values())
        ctx.label("points", npts)
        ctx.label("queries_with_data", data)
        ctx.nontrivial = npts >= 30 and data >= 10 and set(case["how"]) != {"sorted"}
