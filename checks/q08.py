"""Q08: suggest and lookup."""
import json
from urllib.parse import quote

from vt import hist, query as Q
from vt.hist import World
from vt.runner import Violation
from vt.server import HttpError

ID = "Q08"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing: generated populations of names written over several protocols, then generated suggest and "
             "lookup requests with every prefix length, maximum, page size and start, between further writes and restarts; compared with the set "
             "of names and series written")
LEVEL_NOTE = "Up to 300 series (3% of cases: 6,000 with long names) and 60 requests per case; sampling, not exhaustive."
RULE = ("a request counts when its answer is a non-empty proper part of what is known, or a page of a longer list; a case counts when at "
        "least 8 of its requests do")
N = {"quick": 700, "thorough": 9000}
SHRINK = ["ops", "ops.*.pts", "series"]

STEMS = ["cpu", "cpu.user", "cpu_user", "disk", "d", "net-rx", "A", "a", "a.b", "a.b.c", "zz", "x1", "x10", "x100", "Z/9", "0"]


def name(rng, n):
    s = rng.choice(STEMS)
    return s if rng.random() < 0.4 else s + rng.choice([".", "_", "-", ""]) + str(rng.randint(0, n))


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    big = rng.random() < 0.03
    n = 6000 if big else rng.choice([1, 3, 10, 40, 120, 300])
    metrics = [name(rng, n) for _ in range(1 if big else rng.choice([1, 2, 5, 20, 60]))]
    keys = [name(rng, 9) for _ in range(rng.choice([1, 2, 4, 8]))]
    keys = [k for k in keys if k not in ("metric", "timestamp", "value")]
    series, seen = [], set()
    for _ in range(n * 3):
        t = {k: name(rng, rng.choice([2, n])) for k in rng.sample(keys, rng.randint(1, min(len(keys), 5)))} if keys else {"k": name(rng, n)}
        if big:
            t["long"] = "v" * rng.randint(20, 60) + str(len(series))
        if rng.random() < 0.2:
            t["_field"] = name(rng, 3)
        s = {"m": rng.choice(metrics), "t": t}
        if hist.M.skey(s) not in seen:
            seen.add(hist.M.skey(s))
            series.append(s)
        if len(series) >= n:
            break
    ops, k = [], 0
    t0 = hist.NOW * (1000 if ms else 1)
    while k < len(series):
        m = rng.choice([200, 400]) if big else rng.choice([1, 5, 50, 200])
        part = list(range(k, min(k + m, len(series))))
        by_line = [x for x in part if "_field" in series[x]["t"]] if rng.random() < 0.5 else []
        rest = [x for x in part if x not in by_line]
        if by_line:
            ops.append({"op": "put", "via": "line", "pts": [[x, t0 - rng.randint(0, 1000), 1] for x in by_line]})
        if rest:
            ops.append({"op": "put", "via": rng.choice(["plain", "json", "gzip"]), "pts": [[x, t0 - rng.randint(0, 1000), 1] for x in rest]})
        k += m
        if not big or rng.random() < 0.1:
            ops += requests(rng, series, rng.choice([0, 0, 3]))
        if rng.random() < 0.1 and not big:
            ops.append({"op": "restart"})
    ops += requests(rng, series, 20)
    if big:
        ops.append({"op": "lookup", "m": series[0]["m"], "tags": {}, "limit": 100000, "page": 1500})
        ops.append({"op": "suggest", "type": "tagv", "q": "", "max": 100000})
    ops.append({"op": "restart"})
    ops += requests(rng, series, 10)
    return {"conf": conf, "series": series, "ops": ops}


def requests(rng, series, n):
    out = []
    for _ in range(n):
        s = rng.choice(series)
        if rng.random() < 0.5:
            ty = rng.choice(["metrics", "tagk", "tagv"])
            full = {"metrics": s["m"], "tagk": rng.choice(list(s["t"])), "tagv": rng.choice(list(s["t"].values()))}[ty]
            q = full[:rng.randint(1, len(full))] if rng.random() < 0.85 else rng.choice(["nosuch", full + "x", full])
            op = {"op": "suggest", "type": ty, "q": q}
            if rng.random() < 0.6:
                op["max"] = rng.choice([1, 2, 3, 5, 25, 1000])
            out.append(op)
        else:
            tags = {}
            for k in rng.sample(list(s["t"]), rng.randint(0, min(2, len(s["t"])))):
                v = s["t"][k]
                tags[k] = v if k == "_field" else rng.choice([v, v, "*", v[:1] + "*", "literal_or(%s|nosuch)" % v, "%s|nosuch" % v])
            op = {"op": "lookup", "m": s["m"] if rng.random() < 0.95 else "nosuch.metric", "tags": tags}
            if rng.random() < 0.5:
                op["page"] = rng.choice([1, 2, 7, 25, 100])
            if rng.random() < 0.5:
                op["limit"] = rng.choice([1, 3, 25, 1000, 100000])
                if rng.random() < 0.5:
                    op["start"] = rng.choice([0, 1, 2, 10, 30, 1000])
            out.append(op)
    return out


def body_of(r, what):
    if r.status != 200:
        raise HttpError("%s -> %s" % (what, r))
    try:
        return json.loads(r.body)
    except ValueError:
        raise Violation("%s: not JSON: ...%r" % (what, r.body[-200:]))


def suggest(w, op):
    path = "/api/suggest?type=%s&q=%s" % (op["type"], quote(op["q"], safe="/"))
    limit = 1000
    if "max" in op:
        path += "&max=%d" % op["max"]
        limit = op["max"]
    r = w.sv.get(path)
    got = body_of(r, path)
    ser = list(w.model.d)
    known = {"metrics": {m for m, _ in ser}, "tagk": {k for _, t in ser for k, _ in t}, "tagv": {v for _, t in ser for _, v in t}}[op["type"]]
    # names the store uses for itself
    known -= {"_field", "_"}
    got_n = [g for g in got if g not in ("_field", "_")]
    want = {x for x in known if x.startswith(op["q"])}
    if len(got) > limit:
        raise Violation("%s: %d names returned" % (path, len(got)))
    if len(set(got)) != len(got):
        raise Violation("%s: a name is listed twice: %r" % (path, sorted(got)[:20]))
    extra = sorted(set(got_n) - want)
    if extra:
        raise Violation("%s: unexpected names %r" % (path, extra[:5]))
    full = len(json.dumps(sorted(want))) > 400000
    if len(got) < limit and len(got_n) < len(want) and not full:
        raise Violation("%s: %d of %d names missing: %r" % (path, len(want) - len(got_n), len(want), sorted(want - set(got_n))[:5]))
    return 0 < len(want) < len(known)


def lookup_page(w, op, limit, start):
    m = op["m"]
    if op["tags"]:
        m += "{" + ",".join("%s=%s" % kv for kv in op["tags"].items()) + "}"
    path = "/api/search/lookup?m=" + quote(m, safe="")
    if limit is not None:
        path += "&limit=%d" % limit
    if start is not None:
        path += "&startIndex=%d" % start
    want = {k for k in Q.select(w.model, {"metric": op["m"], "tags": op["tags"]})}
    r = w.sv.get(path)
    if not want and r.status == 400:
        return want, [], path
    n = len(want) if limit is None else min(len(want), limit)
    if r.status == 413 and n * 40 > 100000:
        w.ctx.label("too_big")
        return want, None, path
    j = body_of(r, path)
    if j["totalResults"] != len(want):
        raise Violation("%s: total of %r, but %d series match" % (path, j["totalResults"], len(want)))
    # a series without a field next to ones with fields is listed with a placeholder
    got = [frozenset(kv for kv in x["tags"].items() if kv != ("_field", "_")) for x in j["results"]]
    if any(x["metric"] != op["m"] for x in j["results"]):
        raise Violation("%s: names another metric" % path)
    if len(set(got)) != len(got):
        raise Violation("%s: a series is listed twice" % path)
    if len({x["tsuid"] for x in j["results"]}) != len(got):
        raise Violation("%s: two series have one id" % path)
    extra = [sorted(x) for x in got if x not in want]
    if extra:
        raise Violation("%s: unexpected series %r" % (path, extra[:3]))
    return want, got, path


def lookup(w, op):
    limit, start = op.get("limit"), op.get("start")
    want, got, path = lookup_page(w, op, limit, start)
    if got is not None:
        n = max(0, min(limit if limit is not None else 25, len(want) - (start or 0)))
        if len(got) != n:
            raise Violation("%s: %d series listed instead of %d (of %d)" % (path, len(got), n, len(want)))
    if op.get("page"):
        seen, at = set(), 0
        while at < len(want):
            _, page, path = lookup_page(w, op, op["page"], at)
            if page is None:
                return True
            n = min(op["page"], len(want) - at)
            if len(page) != n:
                raise Violation("%s: %d series listed instead of %d (of %d)" % (path, len(page), n, len(want)))
            if seen & set(page):
                raise Violation("%s: lists a series of an earlier page again: %r" % (path, sorted(list(seen & set(page))[0])))
            seen |= set(page)
            at += op["page"]
            if at > 60 * op["page"]:
                return True
    return bool(want) and (len(want) < len(w.model.d) or bool(op.get("page")))


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        good = 0
        for op in case["ops"]:
            if op["op"] == "suggest":
                good += suggest(w, op)
                ctx.label("suggest")
            elif op["op"] == "lookup":
                good += lookup(w, op)
                ctx.label("lookup")
            else:
                w.step(op)
        w.sv.stop()
        ctx.nontrivial = good >= 8
