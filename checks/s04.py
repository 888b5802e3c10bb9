"""S04: series identity. Points never move between series whose names are close."""
from vt import hist, model as M
from vt.hist import World
from vt.runner import Violation

ID = "S04"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing: generated families of near-identical series (shared prefixes, swapped keys and values, "
             "missing or extra tags, tag order shuffled at every write, all write paths); reference model of series identity")
LEVEL_NOTE = ("Up to 40 series per case over up to 6 metrics, up to 8 tags each, names of 1 to 60 letters, digits and -_./ ; sampling.")
RULE = "a case counts when it has at least 4 series of which two share a metric, and every series was written and queried by its own tags"
N = {"quick": 1300, "thorough": 13000}
SHRINK = ["ops", "ops.*.pts", "series"]

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def name(rng, pool):
    x = rng.random()
    if pool and x < 0.65:
        return rng.choice(pool)
    if pool and x < 0.85:
        base = rng.choice(pool)
        y = rng.choice(["more", "less", "case", "last", "first", "double"])
        if y == "more":
            base += rng.choice(ALNUM + "-_./")
        elif y == "less" and len(base) > 1:
            base = base[:-1]
        elif y == "case":
            base = base.swapcase()
        elif y == "last":
            base = base[:-1] + rng.choice(ALNUM)
        elif y == "first":
            base = rng.choice(ALNUM) + base[1:]
        elif len(base) < 25:
            base = base + base
    else:
        n = rng.choice([1, 1, 2, 3, 8, 20, 60])
        base = rng.choice(ALNUM) + "".join(rng.choice(ALNUM + "-_./") for _ in range(n - 1))
    pool.append(base)
    return base


def gen_families(rng, n):
    metrics, keys, vals = [], [], []
    out, seen = [], set()
    nm = rng.choice([1, 1, 2, 6])
    ms = [name(rng, metrics) for _ in range(nm)]
    fields = rng.random() < 0.4
    while len(out) < n:
        if out and rng.random() < 0.7:
            s = rng.choice(out)
            m, t = s["m"], dict(s["t"])
            for _ in range(rng.choice([1, 1, 2])):
                z = rng.choice(["value", "add", "del", "key", "swap", "metric", "kv"])
                ks = [k for k in t if k != "_field"]
                if z == "value" and ks:
                    t[rng.choice(ks)] = name(rng, vals)
                elif z == "add" and len(t) < 8:
                    t.setdefault(name(rng, keys), name(rng, vals))
                elif z == "del" and len(ks) > 1:
                    del t[rng.choice(ks)]
                elif z == "key" and ks:
                    v = t.pop(rng.choice(ks))
                    t.setdefault(name(rng, keys), v)
                elif z == "swap" and len(ks) > 1:
                    a, b = rng.sample(ks, 2)
                    t[a], t[b] = t[b], t[a]
                elif z == "kv" and ks:
                    k = rng.choice(ks)
                    v = t.pop(k)
                    t.setdefault(v, k)
                elif z == "metric":
                    m = rng.choice(ms)
        else:
            m = rng.choice(ms)
            t = {name(rng, keys): name(rng, vals) for _ in range(rng.choice([1, 1, 2, 3, 5, 8]))}
        if fields and rng.random() < 0.3:
            t["_field"] = name(rng, vals)
        elif rng.random() < 0.3:
            t.pop("_field", None)
        if not t or any(k.lower() == "_field" and k != "_field" for k in t) or sum(len(k) + len(v) + 2 for k, v in t.items()) > 900:
            continue
        s = {"m": m, "t": t}
        if M.skey(s) in seen:
            continue
        seen.add(M.skey(s))
        out.append(s)
    return out


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    series = gen_families(rng, rng.choice([2, 5, 10, 20, 40]))
    n = rng.choice([1, 3, 10])
    t0 = (hist.NOW - rng.randint(0, 2 * hist.DAY)) * unit
    pts = []
    for k in range(n):
        for j in range(len(series)):
            pts.append([j, t0 + k * rng.choice([1, 10, 600]) * unit + (rng.choice([0, 1, 7]) if ms else 0), j * 1000 + len(pts) % 1000])
    # the same times for neighbours: a point in the wrong place is not hidden by its time
    seen = set()
    pts = [p for p in pts if (p[0], p[1]) not in seen and not seen.add((p[0], p[1]))]
    if rng.random() < 0.5:
        rng.shuffle(pts)
    ops = []
    while pts:
        k = rng.choice([1, 4, 16, 64])
        b, pts = pts[:k], pts[k:]
        ops.append({"op": "put", "via": rng.choice(["plain", "json", "gzip", "line", "json1"]), "shuffle": rng.randint(0, 1 << 30), "pts": b})
        x = rng.random()
        if x < 0.1:
            ops.append({"op": "restart"})
        elif x < 0.2:
            ops.append({"op": "check"})
        elif x < 0.3:
            ops.append({"op": "own", "k": rng.randrange(len(series))})
    return {"conf": conf, "series": series, "ops": ops}


class IdWorld(World):
    def send(self, via, pts):
        import random
        r = random.Random(self.shuffle)
        keep = self.series
        self.series = []
        for s in keep:
            items = list(s["t"].items())
            r.shuffle(items)
            self.series.append({"m": s["m"], "t": dict(items)})
        try:
            if via != "line":
                return super().send(via, pts)
            with_f = [p for p in pts if "_field" in keep[p[0]]["t"]]
            rest = [p for p in pts if "_field" not in keep[p[0]]["t"]]
            res = None
            if with_f:
                res = super().send("line", with_f)
                if res.status != 200:
                    return res
            if rest:
                res = super().send("plain", rest)
            return res
        finally:
            self.series = keep

    def own(self, s):
        """The series asked for by its own tags: every series that has them, and the right points."""
        tags = dict(s["t"])
        lo, hi = self.span()
        got = self.sv.raw(s["m"], lo - 1, hi + 1, tags=tags, ms=self.ms)
        exp = {k: p for k, p in self.model.of_metric(s["m"]).items() if set(tags.items()) <= k}
        M.expect_series(exp, got, "query by the tags of %s %r: " % (s["m"], tags), self.close, exp)


def run(case, ctx):
    with IdWorld(case, ctx) as w:
        w.start()
        w.shuffle = 0
        S = case["series"]
        for op in case["ops"]:
            if op["op"] == "own":
                if op["k"] < len(S):
                    w.own(S[op["k"]])
                continue
            w.shuffle = op.get("shuffle", 0)
            w.step(op)
        known = [s for s in S if M.skey(s) in w.model.d]
        w.check_raw()
        for s in known:
            w.own(s)
        w.step({"op": "restart"})
        w.check_raw(what="after a restart: ")
        for s in known[:10]:
            w.own(s)
        w.sv.stop()
        ctx.label("series", len(known))
        ctx.nontrivial = len(known) >= 4 and len({s["m"] for s in known}) < len(known)
