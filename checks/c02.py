"""C02: a graceful stop under traffic keeps every answered write."""
import time

from vt import conc, hist
from vt import model as M
from vt.hist import World, DAY, NOW
from vt.runner import Violation
from checks import c01

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing of concurrent programs: generated client programs run at the same time, the server is asked to stop "
             "(signal or request) after a generated number of answers while threads are held back at random; the recorded intervals give "
             "the points that must and may be there after the next start")
LEVEL_NOTE = "Up to 8 clients, one stop per life, up to 3 lives; the moment of the stop and the schedules are sampled."
RULE = "a case counts when a stop came while a request was in flight or clients still had requests to send, with points answered before it"
N = {"quick": 700, "thorough": 8000}
SHRINK = ["lives", "lives.*.programs", "lives.*.programs.*", "lives.*.programs.*.*.pts"]
SHRINK_TRIES = 6
CONFIRM = 25
SELF_EVIDENT = c01.SELF_EVIDENT


def generate(rng, tier, i):
    case = c01.generate(rng, tier, i)
    base = NOW - NOW % DAY + rng.choice([100, DAY // 2 - 50, DAY - 40])
    lives, first, seq = [], case.pop("programs"), 0
    case.pop("delays")
    for k in range(rng.choice([1, 1, 2, 3])):
        programs, lo, hi = c01.gen_programs(rng, case["series"], base + 700 * k, 1000, rng.choice(["near", "near", "late", "days"]))
        if k:
            # values tell the lives apart
            for p in programs:
                for o in p:
                    for x in o.get("pts", []):
                        x[2] += k * 100000
        for p in programs:
            for o in p:
                if o.get("via") == "tcp":
                    o["via"] = "plain"
        total = sum(o["op"] not in ("sync", "sleep") for p in programs for o in p)
        lives.append({"programs": programs, "after": rng.choice([0, rng.randint(0, total), rng.randint(0, total)]), "how": rng.choice(["term", "int", "admin"]),
                      "delays": conc.delays(rng)})
    case["lives"] = lives
    case["lo"], case["hi"] = (base - 4 * DAY) * 1000, (base + 4 * DAY) * 1000
    return case


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        writes = conc.Writes(w.series)
        counted = False
        for k, life in enumerate(case["lives"]):
            w.sv.set_ctl(**dict({"delay_every": 0}, **life["delays"]))
            crew = conc.Crew(w, c01.equal_syncs(life["programs"]), stop_ok=True)
            crew.start()
            t0 = time.monotonic()
            while crew.answered < life["after"] and any(t.is_alive() for t in crew.threads) and time.monotonic() - t0 < 120:
                time.sleep(0.0005)
            crew.stopped = time.monotonic()
            # a handler is slow to come to a stop when everything is held back for long
            if life["delays"].get("delay_ns", 0) > 100_000:
                w.sv.set_ctl(delay_ns=100_000)
            if crew.early:
                raise w.sv.died(crew.early)
            w.sv.stop(life["how"], limit=180.0)
            gone = time.monotonic()
            crew.going = False
            crew.join()
            if crew.early:
                raise Violation("the server failed before it was asked to stop: %r" % crew.early)
            w.sv.set_ctl(delay_every=0)
            puts = [r for r in crew.recs if r.op["op"] == "put"]
            for r in puts:
                if r.status is not None and r.status != 200:
                    # refused while stopping: any part of it may be there
                    if r.end < crew.stopped:
                        raise Violation("client %d: write answered %d %r" % (r.client, r.status, r.body[:200]))
                    r.end = conc.INF
            # what was sent but not answered may be there or not, and will not change any more
            writes.add(puts)
            cut = [r for r in crew.recs if r.start < crew.stopped and not r.end < crew.stopped]
            left = len(crew.recs) < sum(o["op"] not in ("sync", "sleep") for p in life["programs"] for o in p)
            counted |= bool((cut or left) and any(r.end < crew.stopped for r in puts))
            ctx.label("stops")
            ctx.label("in_flight", len(cut))
            ctx.label("answered_while_stopping", sum(r.status == 200 and r.end > crew.stopped for r in puts))
            ctx.label("answered", sum(r.status == 200 for r in puts))
            w.sv.start()
            conc.final(w, writes, c01.same, "after a restart: ", case["lo"], case["hi"], time.monotonic())
        w.sv.stop()
        ctx.nontrivial = counted
