"""D07: maintenance leaves every answer as it was."""
import os
import time

from vt import hist
from vt.hist import World, DAY
from vt.runner import Violation

ID = "D07"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing: generated histories of writes, queries and restarts with maintenance driven through the "
             "server's own timer by a moved clock and by the admin interface; reference model compared at every check")
LEVEL_NOTE = ("Up to 1500 writes over up to 40 days, up to 40 maintenance actions (log flush, rotation with idle-file closing and day "
              "unloading, series archiving, memory reclamation, rollup) per case; sampling, not exhaustive.")
RULE = ("a case counts when maintenance visibly closed mapped data files of the server while it held points, and points were written to "
        "an existing series afterwards")
N = {"quick": 330, "thorough": 4000}
SHRINK = ["ops", "ops.*.pts", "series"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    conf["tsdb.flush.frequency"] = rng.choice(["1min", "5min", "1h"])
    conf["tsdb.thrashing.threshold"] = rng.choice(["1s", "1min", "30min"])
    conf["append.log.flush.frequency"] = rng.choice(["1min", "10min", "10h"])
    conf["tsdb.gc.frequency"] = rng.choice(["1min", "1h", "1d"])
    conf["ts.archive.threshold"] = rng.choice(["2s", "10min", "1h", "1d", "0s"])
    conf["tsdb.archive.threshold"] = rng.choice(["1d", "1w"])
    if rng.random() < 0.3:
        conf["tsdb.rollup.enabled"] = "false"
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    now = hist.NOW
    series = hist.gen_series(rng, rng.choice([1, 2, 4, 12]))
    batches = []
    if rng.random() < 0.35:
        batches = hist.gen_days(rng, len(series), ms, now)
    else:
        start = now - rng.choice([600, 7200, DAY, 6 * DAY])
        streams = [hist.Stream(rng, ms, start + rng.randint(0, 500)) for _ in series]
        batches = hist.gen_batches(rng, streams, rng.choice([20, 100, 400, 1200]), late=rng.choice([0, 0.05, 0.3]),
                                   dup=rng.choice([0, 0, 0.05]), maxbatch=80)
    ops, rate = [], rng.choice([0.1, 0.3, 0.7])
    # the clock stays near the data as it is written: catch up with it now and then
    for b in batches:
        ops.append(b)
        n = sum(o["op"] in ("maint", "admin") for o in ops)
        if rng.random() < rate and n < 40:
            for _ in range(rng.choice([1, 1, 2, 4])):
                x = rng.random()
                if x < 0.6:
                    ops.append({"op": "maint", "by": rng.choice([61, 301, 3601, 2 * 3600, 12 * 3600, DAY + 5, 8 * DAY])})
                elif x < 0.7:
                    ops.append({"op": "admin", "cmd": "append"})
                elif x < 0.8:
                    ops.append({"op": "admin", "cmd": "gc"})
                elif x < 0.95:
                    ops.append({"op": "admin", "cmd": "rollup"})
                else:
                    ops.append({"op": "admin", "cmd": "log", "params": {"action": "reopen"}})
        x = rng.random()
        if x < 0.15:
            ops.append({"op": "check"})
        elif x < 0.2:
            ops.append({"op": "restart", "how": rng.choice(["term", "admin"]), "down": rng.choice([0, 60, 3 * DAY])})
    # late points into days that maintenance has been over
    times = [(p[0], p[1]) for o in ops if o["op"] == "put" for p in o["pts"]]
    for _ in range(rng.choice([0, 1, 3])):
        pts, used = [], {t for _, t in times}
        for _ in range(rng.choice([1, 5, 40])):
            k, t = rng.choice(times) if times else (0, now * unit)
            t += rng.choice([-1, 1]) * rng.choice([1, 5, 60, 4000]) * unit
            if t > 0:
                pts.append([k, t, rng.randint(0, 1000)])
        ops.append({"op": "maint", "by": rng.choice([301, 3601, DAY])})
        ops.append({"op": "put", "via": "plain", "pts": pts})
        if rng.random() < 0.5:
            ops.append({"op": "maint", "by": rng.choice([301, 3601, DAY])})
        ops.append({"op": "check"})
    return {"conf": conf, "series": series, "ops": ops}


def mapped(sv):
    """Files of the data directory that the server has mapped."""
    try:
        with open("/proc/%d/maps" % sv.proc.pid) as f:
            return {ln.split(" ", 5)[-1].strip() for ln in f if sv.data_dir in ln}
    except OSError:
        return set()


def maintain(w, op):
    """Moves the clock and leaves the timer thread time for what is due then."""
    before = mapped(w.sv)
    w.advance(op["by"])
    time.sleep(0.05)
    for _ in range(op.get("rounds", 0)):
        w.advance(op["by"])
        time.sleep(0.05)
    closed = len(before - mapped(w.sv))
    w.ctx.label("op_maint")
    w.ctx.label("files_closed", closed)
    return closed


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        closed = after = 0
        for op in case["ops"]:
            if op["op"] == "maint":
                if maintain(w, op) and w.model.d:
                    closed += 1
            else:
                w.step(op)
                after += bool(closed and op["op"] == "put")
            if op["op"] in ("maint", "admin") and w.model.d and (closed or op["op"] == "admin") and op.get("by", 0) % 2 == 0:
                w.check_raw(what="after maintenance: ")
        w.check_raw(what="at the end: ")
        maintain(w, {"by": 2 * DAY})
        w.check_raw(what="after a last round of maintenance: ")
        w.sv.restart()
        w.check_raw(what="after a restart: ")
        w.sv.stop()
        ctx.nontrivial = bool(closed and after)
