"""D06: retention removes the oldest days, whole, and never one of the newest N."""
import os
import re
import time

from vt import hist, model as M
from vt.hist import World, DAY
from vt.runner import Violation

from .d07 import maintain

ID = "D06"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing: generated spreads of points over days, retention periods, clock moves, late writes and "
             "restarts; reference model in which only whole days outside the newest N may vanish, and must once they are left alone")
LEVEL_NOTE = "Up to 25 days and 600 points, retention of 1 to 10 days, up to 30 rotations per case; sampling, not exhaustive."
RULE = "a case counts when at least one day was removed and points of at least one other day were compared after that"
N = {"quick": 420, "thorough": 4000}
SHRINK = ["ops", "ops.*.pts", "series"]
TRIES = 60


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    keep = rng.choice([1, 2, 3, 5, 8, 10])
    conf["tsdb.retention.threshold"] = rng.choice(["%dd" % keep, "%dd" % keep, "%dh" % (24 * keep)])
    conf["tsdb.flush.frequency"] = "1h"
    conf["tsdb.thrashing.threshold"] = rng.choice(["1s", "1min", "30min"])
    conf["ts.archive.threshold"] = rng.choice(["10min", "1h", "1d", "0s"])
    if rng.random() < 0.3:
        conf["tsdb.rollup.enabled"] = "false"
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    series = hist.gen_series(rng, rng.choice([1, 2, 4]))
    n = rng.choice([keep - 1, keep, keep + 1, keep + 3, keep + 8, 2 * keep + 1]) or 1
    day, days = hist.NOW - hist.NOW % DAY, []
    for _ in range(min(n, 25)):
        days.append(day)
        day -= rng.choice([1, 1, 1, 1, 2, 10]) * DAY
    days.reverse()
    ops, kind = [], rng.choice(hist.KINDS)

    def points(d, count):
        out = []
        for k in range(len(series)):
            top = DAY * unit if d + DAY <= hist.NOW else (hist.NOW - d) * unit
            for t in sorted({rng.randrange(top) if rng.random() < 0.9 else rng.choice([0, top - 1]) for _ in range(count)}):
                out.append([k, d * unit + t, hist.gen_value(rng, kind)])
        return out

    some = rng.choice([1, 3, 20])
    live = rng.random() < 0.5       # rotation while the days come in, or only afterwards
    for d in days:
        ops.append({"op": "put", "via": rng.choice(["plain", "json"]), "pts": points(d, rng.choice([1, some]))})
        if live and rng.random() < 0.4:
            ops.append({"op": "maint", "by": rng.choice([3601, 2 * 3600])})
        if rng.random() < 0.1:
            ops.append({"op": "check"})
    for _ in range(rng.choice([2, 5, 12])):
        x = rng.random()
        if x < 0.5:
            ops.append({"op": "maint", "by": rng.choice([3601, 2 * 3600, 5 * 3600]), "rounds": rng.choice([0, 0, 2])})
        elif x < 0.6:
            ops.append({"op": "restart", "how": "term"})
        elif x < 0.75:
            ops.append({"op": "check"})
        elif x < 0.95:
            d = rng.choice(days) if rng.random() < 0.6 else days[0] - rng.choice([1, 40]) * DAY
            ops.append({"op": "put", "via": "plain", "pts": points(d, rng.choice([1, 3]))})
        else:
            ops.append({"op": "admin", "cmd": rng.choice(["append", "rollup", "gc"])})
    return {"conf": conf, "series": series, "ops": ops, "keep": keep}


class RetWorld(World):
    """Days outside the newest N may go at any time between two looks, but only whole and for good."""

    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.keep = case["keep"]
        self.unit = 1000 if self.ms else 1
        self.removed = 0

    def day(self, t):
        return t // (DAY * self.unit)

    def days(self):
        return sorted({self.day(t) for p in self.model.d.values() for t in p})

    def safe(self):
        return set(self.days()[-self.keep:])

    def look(self):
        lo, hi = self.span()
        got = {}
        for m in self.model.metrics():
            for k, p in self.sv.raw(m, lo - 1, hi + 1, ms=self.ms).items():
                got[(m, k)] = p
        return got

    def settle(self):
        """What is there, once no day is halfway through being removed."""
        for _ in range(TRIES):
            got = self.look()
            torn = []
            for d in self.days():
                exp = {(k, t) for k, p in self.model.d.items() for t in p if self.day(t) == d}
                n = sum(t in got.get(k, {}) for k, t in exp)
                if 0 < n < len(exp):
                    torn.append((d, n, len(exp)))
            if not torn:
                return got
            time.sleep(0.05)
        d, n, all_ = torn[0]
        raise Violation("day %d (%d days in store, newest %d are kept) has %d of its %d points" % (d * DAY, len(self.days()), self.keep, n, all_))

    def check_days(self, what=""):
        if not self.model.d:
            return
        got, safe = self.settle(), self.safe()
        gone = []
        for d in self.days():
            exp = [(k, t) for k, p in self.model.d.items() for t in p if self.day(t) == d]
            if exp and not any(t in got.get(k, {}) for k, t in exp):
                gone.append(d)
        bad = [d for d in gone if d in safe]
        if bad:
            raise Violation("%sday %d is gone although it is one of the newest %d days with data" % (what, bad[0] * DAY, self.keep))
        # the oldest go first
        left = [d for d in self.days() if d not in gone]
        if gone and left and max(gone) > min(left):
            raise Violation("%sday %d is gone while the older day %d is still there" % (what, max(gone) * DAY, min(left) * DAY))
        for k in list(self.model.d):
            self.model.d[k] = {t: v for t, v in self.model.d[k].items() if self.day(t) not in gone}
            if not self.model.d[k]:
                del self.model.d[k]
        self.removed += len(gone)
        self.ctx.label("days_removed", len(gone))
        have = {k: p for k, p in got.items()}
        for m in {k[0] for k in have} | set(self.model.metrics()):
            M.expect_series(self.model.of_metric(m), {k[1]: p for k, p in have.items() if k[0] == m},
                            what + "metric %s: " % m, self.close, self.model.of_metric(m))
        self.ctx.label("points_compared", sum(len(p) for p in self.model.d.values()))


def day_dirs(sv):
    return sorted(d for root, dirs, _ in os.walk(sv.data_dir) for d in dirs if re.fullmatch(r"\d+\.\d+", d))


def run(case, ctx):
    with RetWorld(case, ctx) as w:
        w.start()
        seen = False
        for op in case["ops"]:
            if op["op"] == "maint":
                maintain(w, op)
                w.check_days("after rotation: ")
            elif op["op"] == "check":
                w.check_days()
            else:
                w.step(op)
                if op["op"] == "restart":
                    w.check_days("after a restart: ")
        w.check_days("at the end: ")
        # left alone, the days in excess go
        n = len(w.days())
        t0 = time.monotonic()
        while len(day_dirs(w.sv)) > w.keep:
            w.advance(3601 * 30)
            time.sleep(0.03)
            if time.monotonic() - t0 > 40:
                raise Violation("%d days are still stored, %d were to be kept" % (len(day_dirs(w.sv)), w.keep))
        w.check_days("after the excess was removed: ")
        if len(w.days()) > w.keep:
            raise Violation("%d days still answer queries, %d were to be kept" % (len(w.days()), w.keep))
        w.put("plain", [[0, w.now * w.unit - w.unit, 5]] if w.series else [])
        w.sv.restart()
        w.check_days("after the last restart: ")
        w.sv.stop()
        ctx.nontrivial = bool(w.removed and w.model.d)
