"""S02: repeated timestamps, last write wins."""
from vt import hist
from vt.hist import World

ID = "S02"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing: generated histories rich in repeated timestamps, late points, page "
             "flushes, snapshots and restarts against the real server, compared with a last-write-wins reference model")
LEVEL_NOTE = ("Random histories of up to about 1500 writes over 4 series, up to 60 % of them repeats, with graceful "
              "restarts in between; sampling, not exhaustive.")
RULE = ("a case counts when at least 5 writes replaced an earlier value of the same series and time by a different "
        "value and the outcome was compared with the model afterwards")
N = {"quick": 2200, "thorough": 20000}
SHRINK = ["ops", "ops.*.pts", "series"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    series = hist.gen_series(rng, rng.choice([1, 1, 2, 4]))
    start = hist.NOW - rng.randint(0, 4 * hist.DAY)
    special = rng.choice([0, 0, 0, 0.02, 0.2])
    streams = [hist.Stream(rng, ms, start + rng.randint(0, 500), special=special) for _ in series]
    total = rng.choice([20, 60, 200, 600, 1500])
    dup = rng.choice([0.02, 0.1, 0.3, 0.6])
    late = rng.choice([0, 0, 0.05, 0.3])
    p_restart = rng.choice([0, 0.02, 0.1])
    ops = []
    for b in hist.gen_batches(rng, streams, total, late=late, dup=dup, maxbatch=60):
        ops.append(b)
        x = rng.random()
        if x < 0.1:
            ops.append({"op": "check"})
        elif x < 0.1 + p_restart:
            ops.append({"op": "restart", "how": rng.choice(["term", "admin"])})
        elif x < 0.25:
            ops.append({"op": "admin", "cmd": "append"})
        elif x < 0.3:
            # the whole batch again, with other values
            k = len(b["pts"])
            ops.append({"op": "put", "via": "plain",
                        "pts": [[p[0], p[1], round(rng.uniform(-500, 500), 2)] for p in rng.sample(b["pts"], rng.randint(1, k))]})
    return {"conf": conf, "series": series, "ops": ops}


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        repl = 0
        seen = {}
        for op in case["ops"]:
            if op["op"] == "put":
                for s, t, v in op["pts"]:
                    if seen.get((s, t), v) != v:
                        repl += 1
                    seen[(s, t)] = v
            w.step(op)
        w.check_raw()
        w.sv.restart()
        w.check_raw(what="after a restart: ")
        w.sv.stop()
        ctx.label("replaced", repl)
        ctx.nontrivial = repl >= 5
