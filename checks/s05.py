"""S05: growth past the capacity of files and tables."""
from vt import hist, model as M
from vt.hist import World

ID = "S05"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing of growth: generated histories that drive one or two dimensions (series, metrics, pages of a "
             "series, pages of a bucket, days, tag values, fields of a measurement) far past file and table capacities; reference model, before and after restarts")
LEVEL_NOTE = ("Up to 13000 series, 2500 metrics, 60000 points of one series at 64-byte pages and 16 pages per file, 400 days; sampling.")
RULE = ("a case counts when a dimension passed a capacity: over 4096 series, over 300 metrics, over 3000 points of a series on pages of at most "
        "128 bytes, over 60 days, over 5000 tag values, or over 64 fields of a measurement")
N = {"quick": 112, "thorough": 1500}
SHRINK = ["ops"]
DIMS = ["series", "metrics", "pages", "days", "tags", "fields", "mix"]


def generate(rng, tier, i):
    dim = DIMS[i % len(DIMS)]
    conf = hist.gen_conf(rng)
    big = 2 if tier == "thorough" and rng.random() < 0.3 else 1
    c = {"conf": conf, "dim": dim, "seed": rng.randint(0, 1 << 30), "restarts": rng.choice([1, 1, 2])}
    if dim == "series":
        c.update(series=rng.choice([500, 4000, 4097, 4200, 6500]) * big, metrics=rng.choice([1, 3, 50]), points=rng.choice([1, 2]), days=1)
    elif dim == "metrics":
        c.update(series=rng.choice([300, 1200, 2500]) * big, metrics=10 ** 9, points=rng.choice([1, 2]), days=rng.choice([1, 2]))
    elif dim == "pages":
        conf["tsdb.page.size"] = rng.choice(["64b", "64b", "128b"])
        conf["tsdb.page.count"] = rng.choice([16, 16, 17, 40])
        c.update(series=rng.choice([1, 2, 5]), metrics=rng.choice([1, 2]), points=rng.choice([3000, 8000, 30000]) * big, days=rng.choice([1, 1, 2]))
        c["points"] = c["points"] // c["series"] + 3000
    elif dim == "days":
        c.update(series=rng.choice([1, 3]), metrics=rng.choice([1, 2]), points=rng.choice([60, 150, 400]), days=0)
        c["days"] = c["points"]
    elif dim == "tags":
        c.update(series=rng.choice([1300, 2600]) * big, metrics=2, points=1, days=1, tags=4)
    elif dim == "fields":
        f = rng.choice([30, 63, 64, 65, 66, 129, 300, 1000])
        c.update(fields=f, series=f * max(1, rng.choice([1, 300, 1500]) // f), metrics=1, points=rng.choice([1, 3]), days=1)
    else:
        c.update(series=rng.choice([200, 1000, 4300]), metrics=rng.choice([10, 400]), points=rng.choice([3, 10]), days=rng.choice([3, 6]))
    if dim == "fields":
        c["via"] = rng.choice(["plain", "line", "wide", "wide"])
    c["ops"] = [rng.choice(["fwd", "late", "restart"]) for _ in range(rng.choice([1, 2, 3]))]
    return c


def build(case):
    """Series and points, from the few numbers of the case."""
    import random
    r = random.Random(case["seed"])
    ns, nm, f = case["series"], case["metrics"], case.get("fields", 1)
    ms = case["conf"]["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    series = []
    for i in range(ns):
        t = {"id": "s%d" % (i // f)}
        if f > 1:
            t["_field"] = "f%d" % (i % f)
        for k in range(case.get("tags", 1) - 1):
            t["k%d" % k] = "v%d" % (i * 7 + k)
        series.append({"m": "m%d" % (i % nm), "t": t})
    days, n = case["days"], case["points"]
    day0 = hist.NOW - hist.NOW % hist.DAY
    per = max(1, n // days)
    pts = []
    kind = r.choice(hist.KINDS)
    for d in range(days):
        base = (day0 - (days - 1 - d) * hist.DAY) * unit
        step = max(1, (hist.DAY * unit - 2) // (per + 1))
        for k in range(per):
            for j in range(ns):
                pts.append([j, base + k * step + (j // f % step if step > 1 else 0), round(hist.gen_value(r, kind), 3)])
    return series, pts


def check_all(w, mets, what=""):
    """Everything, in ranges small enough for an answer to fit the server's buffer."""
    for m in mets:
        ts = sorted(t for p in w.model.of_metric(m).values() for t in p)
        k = 0
        while k < len(ts):
            j = min(k + 2500, len(ts)) - 1
            while j + 1 < len(ts) and ts[j + 1] == ts[j]:
                j += 1
            w.check_raw([m], lo=ts[k], hi=ts[j], what=what)
            k = j + 1


def run(case, ctx):
    series, pts = build(case)
    case2 = dict(case, series=series)
    with World(case2, ctx) as w:
        w.start()
        ops = case["ops"] or ["fwd"]
        share = (len(pts) + len(ops) - 1) // len(ops)
        for o, op in enumerate(ops):
            part = pts[o * share:(o + 1) * share]
            if op == "late":
                part = part[::-1] if len(part) < 3000 else part[len(part) // 2:] + part[:len(part) // 2]
            for k in range(0, len(part), 1500):
                w.put(case.get("via", "plain"), part[k:k + 1500])
            if op == "restart":
                w.step({"op": "restart"})
            ctx.label("op_" + op)
        mets = w.model.metrics()
        check_all(w, mets)
        for _ in range(case["restarts"]):
            w.step({"op": "restart"})
            check_all(w, mets, what="after a restart: ")
            # one more point for old and new series
            last = max(t for _, t, _ in pts)
            more = [[j, last + 1 + j % 3, 5] for j in range(0, len(series), max(1, len(series) // 50))]
            w.put("plain", more)
        check_all(w, mets, what="after writing more: ")
        w.sv.stop()
        ctx.label("dim_" + case["dim"])
        small = case["conf"]["tsdb.page.size"] in ("64b", "128b")
        ctx.nontrivial = (len(series) > 4096 or len(mets) > 300 or (case["points"] > 3000 and small) or case["days"] > 60
                          or len(series) * case.get("tags", 1) > 5000 or case.get("fields", 1) > 64)
