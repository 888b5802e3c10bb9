"""D03: kill the process during recovery, again and again; the end is the same."""
from vt import crash, hist

ID = "D03"
LEVEL = "fault_enumeration"
TECHNIQUE = ("property-based testing with injected kills: after a crash of a generated history the next starts are themselves killed at "
             "generated library calls, or right after they begin to serve; the state finally reached is compared with the set "
             "of states the history allows, then written to, flushed and restarted")
LEVEL_NOTE = ("Up to 6 series, 500 points, up to 5 kills in a row while starting or freshly started, at any of the file, clock and "
              "mapping calls made; process kills, not power failures.")
RULE = "a case counts when a start was killed, or a freshly started server was, with at least 5 points covered by a completed flush"
N = {"quick": 1100, "thorough": 11000}
SHRINK = ["ops", "ops.*.pts", "ops.*.starts", "series"]


def starts(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        if rng.random() < 0.25:
            out.append(None)          # killed as soon as it serves
        else:
            m = rng.choice([crash.ALL, crash.ALL & ~crash.CLOCK, crash.ALL & ~crash.CLOCK, crash.META, crash.MMAP, crash.FILE])
            out.append([rng.choice([1, 2, 3, rng.randint(1, 10), rng.randint(1, 40), rng.randint(1, 100)]), m])
    return out


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    if rng.random() < 0.3:
        conf["tsdb.rollup.enabled"] = "false"
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    series = hist.gen_series(rng, rng.choice([1, 2, 3, 6]))
    start = hist.NOW - rng.randint(0, 4 * hist.DAY)
    special = rng.choice([0, 0, 0, 0.02, 0.2])
    streams = [hist.Stream(rng, ms, start + rng.randint(0, 500), special=special) for _ in series]
    late, dup = rng.choice([0, 0, 0.05, 0.3]), rng.choice([0, 0, 0.1])
    mask = rng.choice([crash.ALL & ~crash.CLOCK, crash.META, crash.FILE])
    ops = []
    for b in hist.gen_batches(rng, streams, rng.choice([20, 60, 200, 500]), late=late, dup=dup, maxbatch=rng.choice([5, 30, 100])):
        ops.append(b)
        x = rng.random()
        if x < 0.25:
            ops.append({"op": "flush"})
        elif x < 0.35:
            ops.append({"op": "flush", "kill": [rng.randint(1, 14), mask], "starts": starts(rng)})
        elif x < 0.42:
            ops.append({"op": "kill", "starts": starts(rng)})
        elif x < 0.46:
            ops.append({"op": "restart", "how": "term", "kill": [rng.randint(1, 50), mask], "starts": starts(rng)})
    if rng.random() < 0.5:
        ops.append({"op": "flush"})
    ops.append({"op": "kill", "starts": starts(rng)})
    return {"conf": conf, "series": series, "ops": ops}


def run(case, ctx):
    with crash.CrashWorld(case, ctx) as w:
        w.start()
        good = False
        for op in case["ops"]:
            if op["op"] == "kill":
                w.kill()
            elif "kill" in op:
                if not w.step_killed(op, *op["kill"]):
                    continue
            else:
                w.step(op)
                continue
            for s in op["starts"]:
                if s is None:
                    w.sv.start()
                    w.kill()
                    ctx.label("kills_fresh")
                elif not w.start_killed(*s):
                    w.kill()
                good |= sum(len(p) for p in w.durable.values()) >= 5
            w.sv.start()
            w.recovered()
        w.check_raw(what="at the end: ")
        w.step({"op": "restart"})
        w.check_raw(what="after a graceful restart at the end: ")
        w.sv.stop()
        ctx.nontrivial = good
