"""D04: settings change between runs on one data directory."""
from vt import hist
from vt.hist import World

ID = "D04"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing over configurations: generated histories in which every restart comes with other storage "
             "settings; reference model compared before and after every change")
LEVEL_NOTE = ("Up to 7 runs per case on one data directory, each with any codec, precision, page size, page count, bucket and rollup "
              "setting, up to 900 writes over up to 20 days; sampling, not exhaustive.")
RULE = ("a case counts when at least two storage settings changed over points already stored and points were written to an existing "
        "series afterwards")
N = {"quick": 1000, "thorough": 10000}
SHRINK = ["ops", "ops.*.pts", "series"]

KEYS = ["tsdb.compressor.version", "tsdb.compressor.precision", "tsdb.page.size", "tsdb.page.count", "tsdb.metric.buckets",
        "tsdb.rollup.enabled", "tsdb.rollup.buckets", "append.log.enabled", "tsdb.rollup.level1.compressor.version"]


def setting(rng, key):
    return {"tsdb.compressor.version": lambda: rng.choice([0, 1, 2, 3, 4]),
            "tsdb.compressor.precision": lambda: rng.choice([3, 4, 6, 8, 10, 12]),
            "tsdb.page.size": lambda: rng.choice(["64b", "128b", "256b", "512b", "1024b", "4096b"]),
            "tsdb.page.count": lambda: rng.choice([16, 17, 32, 64, 256, 1000]),
            "tsdb.metric.buckets": lambda: rng.choice([1, 2, 3, 20, 100]),
            "tsdb.rollup.enabled": lambda: rng.choice(["true", "false"]),
            "tsdb.rollup.buckets": lambda: rng.choice([1, 2, 7, 64]),
            "append.log.enabled": lambda: rng.choice(["true", "false"]),
            "tsdb.rollup.level1.compressor.version": lambda: rng.choice([1, 2])}[key]()


def generate(rng, tier, i):
    conf = {"tsdb.timestamp.resolution": rng.choice(["millisecond", "second"])}
    for k in KEYS:
        if rng.random() < 0.6:
            conf[k] = setting(rng, k)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    series = hist.gen_series(rng, rng.choice([1, 2, 4, 10]))
    if rng.random() < 0.3:
        batches = hist.gen_days(rng, len(series), ms)
    else:
        start = hist.NOW - rng.randint(0, 6 * hist.DAY)
        streams = [hist.Stream(rng, ms, start + rng.randint(0, 500)) for _ in series]
        batches = hist.gen_batches(rng, streams, rng.choice([20, 100, 300, 900]), late=rng.choice([0, 0.05, 0.3]),
                                   dup=rng.choice([0, 0, 0.05]), maxbatch=rng.choice([20, 80]))
    for b in batches:
        for p in b["pts"]:
            # fewer decimals than any precision keeps
            p[2] = round(p[2], 2)
    ops, runs = [], 1
    focus = rng.choice([None, None, None] + KEYS)
    for b in batches:
        ops.append(b)
        if runs < 7 and rng.random() < 0.25:
            ks = [focus] if focus else [k for k in KEYS if rng.random() < rng.choice([0.2, 0.6])]
            ops.append({"op": "change", "set": {k: setting(rng, k) for k in ks}})
            runs += 1
        elif rng.random() < 0.1:
            ops.append({"op": "check"})
    return {"conf": conf, "series": series, "ops": ops, "grid": True}


def run(case, ctx):
    with World(case, ctx) as w:
        w.close = hist.M.scaled(1e-4, 1e-9)
        w.start()
        changes = after = 0
        for op in case["ops"]:
            if op["op"] != "change":
                w.step(op)
                after += bool(changes >= 2 and op["op"] == "put")
                continue
            if w.model.d:
                w.check_raw(what="before a change of settings: ")
            w.sv.stop()
            for k, v in op["set"].items():
                if w.sv.conf.get(k) != v and w.model.d:
                    changes += 1
                    ctx.label("changed_" + k)
                w.sv.conf[k] = v
            w.sv.start()
            if w.model.d:
                w.check_raw(what="after setting %r: " % op["set"])
        w.check_raw(what="at the end: ")
        w.sv.restart()
        w.check_raw(what="after a restart: ")
        w.sv.stop()
        ctx.nontrivial = bool(after)
