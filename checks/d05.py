"""D05: a checkpoint that is reported as persisted stands for data that survives a kill."""
import time

from vt import crash, hist
from vt import model as M
from vt.hist import num
from vt.runner import Violation
from vt.server import parse_json

ID = "D05"
LEVEL = "fault_enumeration"
TECHNIQUE = ("stateful property-based testing with injected kills: generated clients send points and checkpoints, maintenance runs through a "
             "controlled clock, the checkpoints reported are read, and the process is killed idle or at a generated library call; everything "
             "sent before a reported checkpoint must be back, and so must the report")
LEVEL_NOTE = ("Up to 6 clients, 300 points, 1 to 4 kills per history at any of the file, clock and mapping calls made while writing, rotating "
              "or starting; checkpoint names of letters and digits; process kills, not power failures.")
RULE = "a case counts when a kill followed the report of a checkpoint that covers at least 5 points which no completed flush or stop covered before"
N = {"quick": 700, "thorough": 7000}
SHRINK = ["ops", "ops.*.pts"]


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    # the log is otherwise flushed at about the same times as files are rotated
    conf["append.log.flush.frequency"] = rng.choice(["400d", "400d", "1h", "5min"])
    if rng.random() < 0.3:
        conf["tsdb.flush.frequency"] = rng.choice(["1min", "10min"])
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    n = rng.choice([1, 2, 3, 6])
    clients = [["l%d" % rng.choice([1, 1, 2]), "ch%d" % c] for c in range(n)]
    series = hist.gen_series(rng, n * rng.choice([1, 1, 3]))
    start = hist.NOW - rng.randint(0, 3 * hist.DAY)
    streams = [hist.Stream(rng, ms, start + rng.randint(0, 500)) for _ in series]
    mask = rng.choice([crash.ALL, crash.ALL & ~crash.CLOCK, crash.ALL & ~crash.CLOCK, crash.META, crash.FILE, crash.MMAP])
    ops, kills, names = [], 0, 0
    for b in hist.gen_batches(rng, streams, rng.choice([20, 60, 300]), late=rng.choice([0, 0, 0.1]), dup=rng.choice([0, 0, 0.1]),
                              maxbatch=rng.choice([5, 30])):
        c = rng.randrange(n)
        b["pts"] = [p for p in b["pts"] if p[0] % n == c] or b["pts"]
        c = b["pts"][0][0] % n
        b["pts"] = [p for p in b["pts"] if p[0] % n == c]
        ops.append(b)
        if rng.random() < 0.6:
            names += 1
            op = {"op": "cp", "c": c, "name": "%s%d" % (rng.choice(["", "", "cp", "file7x"]), names), "via": rng.choice(["put", "put", "line"])}
            # usually in the request that carries the points
            if rng.random() < 0.6 and b["via"] in ("plain", "put", "line"):
                op["with"] = ops.pop()
                op["via"] = "line" if b["via"] == "line" else "put"
            ops.append(op)
        x = rng.random()
        if x < 0.3:
            r = {"op": "rotate", "by": rng.choice([61, 301, 601, 3601, hist.DAY])}
            if rng.random() < 0.3 and kills < 4:
                r["kill"] = [int(rng.expovariate(1 / 25.0)) + 1, mask]
                kills += 1
            ops.append(r)
        elif x < 0.36:
            ops.append({"op": "restart", "how": rng.choice(["term", "admin"])})
        elif x < 0.39:
            ops.append({"op": "flush"})
        if rng.random() < 0.06 and kills < 4:
            ops.append({"op": "kill", "starts": [int(rng.expovariate(1 / 30.0)) + 1 for _ in range(rng.choice([0, 0, 1, 2]))], "mask": mask})
            kills += 1
    if rng.random() < 0.7:
        ops.append({"op": "rotate", "by": rng.choice([601, 3601])})
    ops.append({"op": "kill", "starts": [], "mask": mask})
    return {"conf": conf, "series": series, "clients": clients, "ops": ops}


class Watch(crash.CrashWorld):
    """sent: what every client has sent since the last crash, in order. marks: where in that its checkpoints stand."""

    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.clients = case["clients"]
        self.sent = [[] for _ in self.clients]
        self.marks = [{} for _ in self.clients]
        self.told = [None for _ in self.clients]      # position last reported
        self.fresh = 0

    def put(self, via, pts):
        super().put(via, pts)
        for i, t, v in pts:
            self.sent[i % len(self.clients)].append((M.skey(self.series[i]), t, num(v)))

    def cp(self, op):
        leader, ch = self.clients[op["c"]]
        line = "_cp %s:%s:%s\n" % (leader, ch, op["name"])
        pts = (op.get("with") or {}).get("pts") or []
        pts = [p for p in pts if p[0] < len(self.series)]
        self.note(pts)
        # the position is noted first: the server may be killed after it has taken the checkpoint
        self.sent[op["c"]] += [(M.skey(self.series[i]), t, num(v)) for i, t, v in pts]
        self.marks[op["c"]][op["name"]] = len(self.sent[op["c"]])
        if op["via"] == "line":
            r = self.sv.post("/api/write", "".join(hist.ilp_line(self.series[i], t, v, self.ms) + "\n" for i, t, v in pts) + line)
        else:
            r = self.sv.post("/api/put", "".join(hist.put_line(self.series[i], t, v) + "\n" for i, t, v in pts) + line)
        if r.status != 200:
            raise Violation("checkpoint %r with %d points answered %s" % (line, len(pts), r))
        for i, t, v in pts:
            self.model.put(self.series[i], t, num(v))

    def covered(self, c, pos):
        """What a client sent up to here is now durable; what it sent later may be found instead."""
        new = {}
        for k, t, v in self.sent[c][:pos]:
            new.setdefault(k, {})[t] = v
            self.alts.get(k, {}).pop(t, None)
        for k, p in new.items():
            d = self.durable.setdefault(k, {})
            self.fresh += sum(d.get(t) != v for t, v in p.items())
            d.update(p)
        for k, t, v in self.sent[c][pos:]:
            if t in new.get(k, {}):
                self.alts.setdefault(k, {}).setdefault(t, []).append(v)

    def reported(self, what):
        """Reads which checkpoints are reported and what follows from that."""
        r = self.sv.admin("cp")
        if r.status != 200:
            raise Violation("%sthe list of checkpoints answered %s" % (what, r))
        got = {}
        for e in parse_json(r.body):
            for ch in e["channels"]:
                key = (e["leader"], ch["channel"])
                if key in got:
                    raise Violation("%schannel %r is listed twice: %r" % (what, key, r.body))
                got[key] = ch["checkpoint"]
        known = {tuple(c): n for n, c in enumerate(self.clients)}
        for key, name in got.items():
            if key not in known or name not in self.marks[known[key]]:
                raise Violation("%scheckpoint %r of %r was never sent" % (what, name, key))
        for key, n in known.items():
            pos = self.marks[n][got[key]] if key in got else None
            if self.told[n] is not None and (pos is None or pos < self.told[n]):
                raise Violation("%sclient %r: %r was reported before, now %r is" % (
                    what, key, [m for m, p in self.marks[n].items() if p == self.told[n]], got.get(key)))
            if pos is not None:
                if pos != self.told[n]:
                    self.ctx.label("reports")
                    self.covered(n, pos)
                self.told[n] = pos
        one = self.clients[0][0]
        r = self.sv.admin("cp", leader=one)
        if r.status == 200 and {(e["leader"], ch["channel"]): ch["checkpoint"] for e in parse_json(r.body) for ch in e["channels"]} != \
                {k: v for k, v in got.items() if k[0] == one}:
            if self.quiet:
                raise Violation("%scheckpoints of leader %s are %r, of all %r" % (what, one, r.body, got))

    def flushed(self):
        super().flushed()
        self.fresh = 0

    def step(self, op):
        if op["op"] == "cp":
            self.cp(op)
        elif op["op"] == "rotate":
            self.quiet = False
            self.advance(op["by"])
            for _ in range(4):
                time.sleep(0.02)
                self.reported("while maintenance runs: ")
            self.quiet = True
        else:
            super().step(op)
            if op["op"] == "restart":
                self.reported("after a restart: ")

    def back(self):
        """After a crash: the reports first, then the data they stand for."""
        self.reported("after a crash: ")
        good = self.fresh >= 5
        self.recovered()
        self.fresh = 0
        for c in range(len(self.clients)):
            # clients go on from what is there; what had been reported stays reported
            keep = [m for m, p in self.marks[c].items() if p == self.told[c]]
            self.marks[c] = {m: 0 for m in keep}
            if self.told[c] is not None:
                self.told[c] = 0
            self.sent[c] = []
        for i, s in enumerate(self.series):
            for t, v in self.model.d.get(M.skey(s), {}).items():
                self.sent[i % len(self.clients)].append((M.skey(s), t, v))
        return good


def run(case, ctx):
    with Watch(case, ctx) as w:
        w.quiet = True
        w.start()
        good = False
        for op in case["ops"]:
            if op["op"] == "kill":
                w.reported("before a kill: ")
                w.kill()
                for at in op["starts"]:
                    if not w.start_killed(at, op["mask"]):
                        w.sv.kill()
            elif "kill" in op:
                if not w.step_killed(op, *op["kill"]):
                    continue
            else:
                w.step(op)
                continue
            w.sv.start()
            good |= w.back()
        w.check_raw(what="at the end: ")
        w.sv.stop()
        ctx.nontrivial = good
