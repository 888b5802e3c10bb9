"""D02: kill the process anywhere; everything a completed flush covered is back."""
from vt import crash, hist

ID = "D02"
LEVEL = "fault_enumeration"
TECHNIQUE = ("stateful property-based testing with injected kills: generated histories with flushes, the process killed while idle "
             "or at a generated library call inside a write, flush or stop; the state found at the next start is compared with the "
             "set of states the history allows")
LEVEL_NOTE = ("Up to 6 series, 600 points, 1 to 3 kills per history, at any of the file, clock and mapping calls the server makes; "
              "kills between two such calls are not separated; process kills, not power failures.")
RULE = "a case counts when a kill happened with at least 5 points covered by a completed flush and others accepted after it"
N = {"quick": 1400, "thorough": 14000}
SHRINK = ["ops", "ops.*.pts", "series"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    if rng.random() < 0.3:
        conf["tsdb.rollup.enabled"] = "false"
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    series = hist.gen_series(rng, rng.choice([1, 2, 3, 6]))
    start = hist.NOW - rng.randint(0, 4 * hist.DAY)
    special = rng.choice([0, 0, 0, 0.02, 0.2])
    streams = [hist.Stream(rng, ms, start + rng.randint(0, 500), special=special) for _ in series]
    total = rng.choice([20, 60, 200, 600])
    late, dup = rng.choice([0, 0, 0.05, 0.3]), rng.choice([0, 0, 0.1])
    ops = []
    fl, kl = rng.choice([0.1, 0.3]), rng.choice([0.03, 0.1])
    batches = list(hist.gen_batches(rng, streams, total, late=late, dup=dup, maxbatch=rng.choice([5, 30, 100])))
    mask = rng.choice([crash.ALL, crash.ALL & ~crash.CLOCK, crash.ALL & ~crash.CLOCK, crash.META, crash.FILE, crash.MMAP])
    kills = 0
    for j, b in enumerate(batches):
        x = rng.random()
        die = rng.random() < kl and kills < 3
        if die and rng.random() < 0.4:
            b["kill"] = [int(rng.expovariate(1 / 10.0)) + 1, mask]
            kills += 1
        ops.append(b)
        if x < fl:
            f = {"op": "flush"}
            if rng.random() < 0.2 and kills < 3:
                f["kill"] = [int(rng.expovariate(1 / 12.0)) + 1, mask]
                kills += 1
            ops.append(f)
        if die and "kill" not in b:
            ops.append({"op": "kill"})
            kills += 1
        if rng.random() < 0.03:
            r = {"op": "restart", "how": rng.choice(["term", "admin"])}
            if rng.random() < 0.5 and kills < 3:
                r["kill"] = [int(rng.expovariate(1 / 30.0)) + 1, mask]
                kills += 1
            ops.append(r)
    if not kills or rng.random() < 0.3:
        if rng.random() < 0.5:
            ops.insert(rng.randint(len(ops) // 2, len(ops)), {"op": "flush"})
        ops.append({"op": "kill"})
    return {"conf": conf, "series": series, "ops": ops}


def run(case, ctx):
    with crash.CrashWorld(case, ctx) as w:
        w.start()
        good = False
        for op in case["ops"]:
            if op["op"] == "kill":
                dur = sum(len(p) for p in w.durable.values())
                good |= dur >= 5 and sum(len(p) for p in w.model.d.values()) > dur
                w.kill()
            elif "kill" in op:
                dur = sum(len(p) for p in w.durable.values())
                some = dur >= 5 and sum(len(p) for p in w.model.d.values()) > dur
                if not w.step_killed(op, *op["kill"]):
                    continue
                good |= some
            else:
                w.step(op)
                continue
            w.sv.start()
            w.recovered()
        w.check_raw(what="at the end: ")
        w.step({"op": "restart"})
        w.check_raw(what="after a graceful restart at the end: ")
        w.sv.stop()
        ctx.nontrivial = good
