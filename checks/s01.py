"""S01: read-back of accepted points at every moment of a run."""
from vt import hist
from vt.hist import World

ID = "S01"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing: generated histories of batched writes and raw queries "
             "against the real server, compared point by point with a reference model; failing histories are "
             "shrunk to a replay file")
LEVEL_NOTE = ("Random histories of up to about 2500 points over 8 series and several days per case, all codecs, page "
              "sizes and both resolutions; sampling, not exhaustive.")
RULE = ("a case counts when at least 50 points were accepted, at least one series filled more than one page or "
        "spanned several days, and every raw query in it was compared with the model")
N = {"quick": 2000, "thorough": 20000}
SHRINK = ["ops", "ops.*.pts", "series"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    series = hist.gen_series(rng, rng.choice([1, 1, 2, 3, 5, 8]))
    start = hist.NOW - rng.randint(0, 6 * hist.DAY)
    if rng.random() < 0.3:
        start = start // hist.DAY * hist.DAY - rng.randint(0, 100)
    special = rng.choice([0, 0, 0, 0.02, 0.2])
    streams = [hist.Stream(rng, ms, start + rng.randint(0, 5000), special=special) for _ in series]
    total = rng.choice([30, 100, 300, 800, 2500])
    ops = []
    late = rng.choice([0, 0, 0.02, 0.2, 0.5])
    for b in hist.gen_batches(rng, streams, total, late=late):
        ops.append(b)
        if rng.random() < 0.15:
            ops.append({"op": "check"})
    return {"conf": conf, "series": series, "ops": ops}


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        n = 0
        for op in case["ops"]:
            if op["op"] == "put":
                w.put(op["via"], [p for p in op["pts"] if p[0] < len(w.series)])
                n += len(op["pts"])
            else:
                w.check_raw()
                ctx.label("mid_run_checks")
        w.check_raw()
        if case["series"] and n:
            lo, hi = w.span()
            unit = 1000 if w.ms else 1
            days = hi // (hist.DAY * unit) - lo // (hist.DAY * unit) + 1
            biggest = max(len(p) for p in w.model.d.values())
            ctx.label("points", n)
            ctx.label("multi_day", days > 1)
            ctx.label("multi_page", biggest > 150)
            ctx.nontrivial = n >= 50 and (days > 1 or biggest > 150)
        w.sv.stop()
