"""Q02: tag conditions select exactly the matching series."""
from vt import hist, query as Q
from vt.hist import World

ID = "Q02"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated populations of series with confusable tag values and generated "
             "conditions of every kind, compared with naive matching")
LEVEL_NOTE = ("Populations of up to 60 series over 4 keys with 60 queries each, before and after a restart; regexp "
              "conditions only use constructs that mean the same in every dialect; sampling, not exhaustive.")
RULE = "a query counts when it selects some but not all series of its metric; a case counts when at least 5 of its queries do"
N = {"quick": 2400, "thorough": 20000}
SHRINK = ["queries", "ops", "ops.*.pts", "series"]

KEYS = ["host", "dc", "Host", "hos", "z9"]
POOL = ["a", "b", "A", "B", "ab", "a.b", "axb", "aXb", "a-b", "a_b", "a/b", "web1", "web01", "web10", "web.1", "WEB1",
        "web", "we", "1", "01", "10", "1.5", "abc", "ABC", "aBc", "bb", "bab", "ba", "x.y.z", "x-y.z", "host", "dc"]


def cond(rng, vals):
    v = lambda: rng.choice(vals) if rng.random() < 0.8 else rng.choice(POOL)
    def glob():
        s = v()
        x = rng.random()
        k = rng.randint(0, len(s))
        if x < 0.3:
            return s[:k] + "*"
        if x < 0.5:
            return "*" + s[k:]
        if x < 0.8:
            j = rng.randint(k, len(s))
            return s[:k] + "*" + s[j:]
        if x < 0.9:
            return "*" + s[k:k + 1] + "*"
        return s
    def alts():
        return "|".join(v() for _ in range(rng.randint(1, 4)))
    kind = rng.choice(["lit", "lit", "or", "star", "all", "lor", "ilor", "nlor", "nilor", "wild", "iwild", "re"])
    if kind == "lit":
        return v()
    if kind == "or":
        return alts()
    if kind == "star":
        s = v()
        return s[:rng.randint(0, len(s))] + "*"
    if kind == "all":
        return "*"
    if kind == "lor":
        return "literal_or(%s)" % alts()
    if kind == "ilor":
        s = alts()
        return "iliteral_or(%s)" % (s.swapcase() if rng.random() < 0.5 else s)
    if kind == "nlor":
        return "not_literal_or(%s)" % alts()
    if kind == "nilor":
        s = alts()
        return "not_iliteral_or(%s)" % (s.swapcase() if rng.random() < 0.5 else s)
    if kind == "wild":
        return "wildcard(%s)" % glob()
    if kind == "iwild":
        s = glob()
        return "iwildcard(%s)" % (s.swapcase() if rng.random() < 0.5 else s)
    s = v()
    k = rng.randint(0, len(s))
    return "regexp(%s)" % rng.choice([".*", s[:k].replace(".", "[.]") + ".*", ".*" + s[k:].replace(".", "[.]"), "[a-c]*",
                                      "web[0-9]*", "[0-9]", "..", "a.b", "a[.]b"])


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    pool = rng.sample(POOL, rng.randint(3, len(POOL)))
    keys = rng.sample(KEYS, rng.randint(1, 4))
    same = rng.random() < 0.4           # every series has the same keys
    seen, series = set(), []
    for _ in range(rng.choice([3, 10, 30, 60])):
        ks = keys if same else rng.sample(keys, rng.randint(1, len(keys)))
        s = {"m": rng.choice(["m", "m", "n"]), "t": {k: rng.choice(pool) for k in ks}}
        if rng.random() < 0.1:
            s["t"]["_field"] = rng.choice(["f", "g"])
        if hist.M.skey(s) not in seen:
            seen.add(hist.M.skey(s))
            series.append(s)
    unit = 1000 if ms else 1
    t0 = (hist.NOW - 5000) * unit
    pts = [[k, t0 + rng.randint(0, 100) * unit, k + 1] for k in range(len(series))]
    rng.shuffle(pts)
    ops = [{"op": "put", "via": rng.choice(["plain", "json", "gzip"]), "pts": pts[k::3]} for k in range(3)]
    queries = []
    for _ in range(60):
        ks = rng.sample(keys + ["_field"], rng.choice([1, 1, 2, 2, 3]) if len(keys) > 1 else 1)
        sub = {"metric": rng.choice(["m", "m", "n"]), "aggregator": rng.choice(["none", "none", "none", "sum", "count"]), "tags": {}}
        s = rng.choice(series)
        for k in ks:
            vals = sorted({x["t"][k] for x in series if k in x["t"]}) or pool
            sub["tags"][k] = s["t"][k] if k in s["t"] and rng.random() < 0.3 else cond(rng, vals)
            if k == "_field":
                # whether a pattern on the reserved tag also selects points without a field is not
                # documented, so only names are asked for
                sub["tags"][k] = rng.choice(["f", "g", "f|g", "nope", "literal_or(f|h)"])
        if rng.random() < 0.1:
            # exactly the tags of a series
            sub["tags"] = dict(s["t"])
            sub["metric"] = s["m"]
        # brackets are not part of the GET notation
        q = {"get": rng.random() < 0.3 and not any("[" in c for c in sub["tags"].values())}
        if q["get"] and rng.random() < 0.3 and not any("_field" in s["t"] for s in series):
            sub["explicit"] = True
        queries.append([q, sub])
    return {"conf": conf, "series": series, "ops": ops, "queries": queries, "restart": rng.random() < 0.5}


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        for op in case["ops"]:
            w.step(op)
        if case.get("restart"):
            w.sv.restart()
        lo, hi = w.span() if w.model.d else (hist.NOW, hist.NOW + 1)
        some = 0
        for q, sub in case["queries"]:
            q = dict(q, lo=lo - 1, hi=hi + 1, msResolution=w.ms)
            exp = Q.evaluate(w.model, q, sub)
            Q.compare(exp, Q.ask(w.sv, q, sub), sub["metric"], 1e-6, what="%s %r: " % ("GET" if q["get"] else "POST", sub))
            n = len(Q.select(w.model, sub))
            if 0 < n < len(w.model.of_metric(sub["metric"])):
                some += 1
        w.sv.stop()
        ctx.label("queries", len(case["queries"]))
        ctx.label("selective_queries", some)
        ctx.nontrivial = some >= 5
