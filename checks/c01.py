"""C01: concurrent clients lose nothing and see consistent data."""
import collections
import time

from vt import conc, hist
from vt import model as M
from vt.hist import World, DAY, NOW
from vt.runner import Violation

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing of concurrent programs: generated client programs run at the same time against servers with several "
             "listener and responder threads while a preloaded library holds threads back at random around locks, memory and file calls; "
             "every request's interval is recorded and each answer is judged against the sets of points it must and may contain")
LEVEL_NOTE = ("Up to 8 clients with up to 25 requests each on up to 30 series; schedules are sampled (random delays, real threads), "
              "not enumerated, so a replay reruns the program, not the exact interleaving.")
RULE = "a case counts when at least 3 queries were in flight together with a write and threads were held back by the library at least 10 times or not at all on purpose"
N = {"quick": 700, "thorough": 8000}
SHRINK = ["programs", "programs.*", "programs.*.*.pts"]
SHRINK_TRIES = 6
CONFIRM = 25


def SELF_EVIDENT(text):
    # the recorded history itself shows a wrong answer, whether or not the schedule comes back
    return text.startswith(("client", "at the end", "after a restart")) or conc.crashed(text)


def gen_programs(rng, series, base, unit, shape):
    n = rng.choice([2, 3, 4, 6, 8])
    programs = [[] for _ in range(n)]
    metrics = sorted({s["m"] for s in series})
    lo, hi = (base - 3 * DAY) * unit, (base + 3 * DAY) * unit
    used = {}
    clock = [0] * len(series)
    seq = 0
    dup = rng.choice([0, 0, 0.1])
    per = rng.choice([1, 5, 30, 100])
    qrate = rng.choice([0.1, 0.3, 0.5])
    rounds = rng.choice([4, 10, 25])
    new = list(range(len(series)))
    rng.shuffle(new)
    own = rng.random() < 0.3
    for k in range(rounds):
        together = rng.random() < 0.5
        # all clients start on series that nobody has written yet, or on the same few
        focus = [new.pop() for _ in range(min(len(new), rng.choice([1, 2, 5])))] if rng.random() < 0.5 else []
        focus = focus or [rng.randrange(len(series)) for _ in range(rng.choice([1, 1, 3, 8]))]
        for c in range(n):
            p = programs[c]
            if together:
                p.append({"op": "sync"})
            if rng.random() < qrate:
                i = rng.choice(focus)
                q = {"op": "query", "m": series[i]["m"], "lo": lo, "hi": hi}
                if rng.random() < 0.3:
                    tags = {kk: vv for kk, vv in series[i]["t"].items() if rng.random() < 0.7}
                    if tags:
                        q["tags"] = tags
                if rng.random() < 0.3:
                    a = base * unit + rng.randint(-DAY, DAY) * unit
                    q["lo"], q["hi"] = a, a + rng.choice([600, 7200, DAY]) * unit
                p.append(q)
                continue
            pts = []
            for _ in range(rng.randint(1, per)):
                i = rng.choice(focus)
                if own:
                    i = i - i % n + c if i - i % n + c < len(series) else i
                mine = used.setdefault(i, {})
                if mine and rng.random() < dup:
                    t = rng.choice(list(mine))
                    if any(q[0] == i and q[1] == t for q in pts):
                        continue
                else:
                    if shape == "days":
                        t = (base + rng.choice([-2, -1, 0, 1]) * DAY + rng.randrange(DAY)) * unit
                    elif shape == "late":
                        clock[i] += rng.choice([1, 5]) * unit
                        t = base * unit + clock[i] - rng.choice([0, 0, 0, 30, 4000]) * unit
                    else:
                        clock[i] += rng.choice([1, 1, 1, 7, 60]) * unit
                        t = base * unit + clock[i]
                    while t in mine:
                        t += 1
                mine[t] = 1
                seq += 1
                pts.append([i, t, seq])
            via = rng.choice(["plain", "plain", "plain", "json"])
            if all("_field" in series[x[0]]["t"] for x in pts) and rng.random() < 0.7:
                via = "line"
            elif rng.random() < 0.05:
                via = "tcp"
            if pts:
                p.append({"op": "put", "via": via, "pts": pts})
            if rng.random() < 0.04:
                p.append({"op": "admin", "cmd": rng.choice(["append", "gc", "stat"])})
            if rng.random() < 0.04:
                p.append({"op": "get", "path": rng.choice(["/api/suggest?type=metrics&q=m", "/api/suggest?type=tagv&q=h", "/api/stats"])})
    return programs, lo, hi


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    conf["tsdb.timestamp.resolution"] = "millisecond"
    conf["http.listener.count"] = rng.choice([1, 2, 4])
    conf["http.responders.per.listener"] = rng.choice([1, 2, 4])
    conf["tcp.responders.per.listener"] = rng.choice([1, 2])
    if rng.random() < 0.3:
        conf["append.log.flush.frequency"] = "1s"
    if rng.random() < 0.3:
        conf["ts.lock.probability"] = rng.choice([0.1, 0.5, 1])
    base = NOW - NOW % DAY + rng.choice([100, DAY // 2 - 50, DAY - 40])
    series = hist.gen_series(rng, rng.choice([1, 2, 4, 10, 30]), metrics=["m%d" % k for k in range(rng.choice([1, 1, 2, 5]))])
    programs, lo, hi = gen_programs(rng, series, base, 1000, rng.choice(["near", "near", "late", "days"]))
    variant = rng.choice(["rel", "rel", "asan"])
    return {"conf": conf, "series": series, "now": NOW, "programs": programs, "lo": lo, "hi": hi, "delays": conc.delays(rng), "variant": variant}


PATIENCE = 40


def same(a, b):
    return M.close(a, b, 1e-6)


def settle(w, recs, lo, hi):
    """Points sent over TCP are answered by their appearance."""
    sent = [r for r in recs if r.op.get("via") == "tcp"]
    if not sent:
        return
    t0 = time.monotonic()
    while True:
        got = {m: conc.answer(conc.ask(w, m, lo, hi, "after TCP writes: "), "after TCP writes: ") for m in {s["m"] for s in w.series}}
        gone = [(i, t) for r in sent for i, t, _ in r.op["pts"]
                if t not in got[w.series[i]["m"]].get(frozenset(w.series[i]["t"].items()), {})]
        if not gone:
            break
        if time.monotonic() - t0 > PATIENCE:
            raise Violation("at the end: %d points sent over TCP do not appear, such as series %r at %d" % (
                len(gone), w.series[gone[0][0]], gone[0][1]))
        time.sleep(0.02)
    now = time.monotonic()
    for r in sent:
        r.end = now


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        w.sv.set_ctl(**case["delays"])
        crew = conc.Crew(w, equal_syncs(single_tcp(case["programs"])))
        crew.run()
        # let what was sent over TCP without an answer be handled at full speed
        held = w.sv.get_ctl("delays")
        w.sv.set_ctl(delay_every=0)
        settle(w, crew.recs, case["lo"], case["hi"])
        writes, overlapped, seen = conc.judge_all(w, crew.recs, same)
        before = conc.final(w, writes, same, "at the end: ", case["lo"], case["hi"])
        w.sv.restart()
        after = conc.final(w, writes, same, "after a restart: ", case["lo"], case["hi"])
        for m in before:
            d = M.diff_series(before[m], after[m], None, "after a restart: metric %s differs from before: " % m)
            if d:
                raise Violation(d)
        w.sv.stop()
        ctx.label("requests", len(crew.recs))
        ctx.label("queries_beside_writes", overlapped)
        ctx.label("points_seen", seen)
        ctx.label("held_back", held)
        ctx.nontrivial = overlapped >= 3 and (held >= 10 or not case["delays"])


def equal_syncs(programs):
    """Clients meet as often as the one that meets least; shrinking may have removed some."""
    least = min(sum(o["op"] == "sync" for o in p) for p in programs) if programs else 0
    out = []
    for p in programs:
        n, q = 0, []
        for o in p:
            if o["op"] == "sync":
                n += 1
                if n > least:
                    continue
            q.append(o)
        out.append(q)
    return out


def single_tcp(programs):
    """Whether a point sent over TCP is there shows only if nobody else sends it."""
    n = collections.Counter((i, t) for p in programs for o in p if o["op"] == "put" for i, t, _ in o["pts"])
    return [[dict(o, via="plain") if o.get("via") == "tcp" and any(n[i, t] > 1 for i, t, _ in o["pts"]) else o for o in p] for p in programs]
