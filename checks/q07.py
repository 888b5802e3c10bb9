"""Q07: one query in many forms."""
import json
import random
import zlib
from urllib.parse import quote

from vt import hist, model as M, query as Q
from vt.hist import World
from vt.runner import Violation
from vt.server import Conn, HttpError, parse_json

ID = "Q07"
LEVEL = "exploration"
TECHNIQUE = ("metamorphic property-based testing: generated queries over generated data, each asked in several generated forms "
             "(GET and POST, units and notation of times, order and layout of JSON, escaping, quoting, compression, position among "
             "other sub-queries, repetition); the answers must agree")
LEVEL_NOTE = "Up to 8 series and 400 points with 24 queries in 4 further forms each; sampling, not exhaustive."
RULE = ("a query counts when its answer has at least one point and it was asked in at least two forms; a case counts when at least 5 "
        "of its queries do")
N = {"quick": 1200, "thorough": 10000}
SHRINK = ["queries", "queries.*.forms", "ops", "ops.*.pts", "series"]


def gen_sub(rng, top=0):
    sub = {"metric": rng.choice(["m", "m", "n.x_y"]), "aggregator": rng.choice(["none", "none", "sum", "avg", "max", "min", "count", "dev", "p95"])}
    if rng.random() < 0.4:
        sub["tags"] = {"h": rng.choice(["*", "h0", "h1", "h0|h1", "h*", "literal_or(h0|h2)", "wildcard(h*)", "not_literal_or(h1)", "iliteral_or(H0)"])}
        if rng.random() < 0.4:
            sub["tags"]["d"] = rng.choice(["*", "a", "a|b", "not_iliteral_or(A)"])
    if rng.random() < 0.4:
        sub["downsample"] = "%s-%s%s" % (rng.choice(["1s", "10s", "1m", "5m", "1h", "1d", "0all", "2000ms"]),
                                         rng.choice(["avg", "sum", "count", "min", "max", "first", "last", "dev", "p50"]),
                                         rng.choice(["", "", "", "-none"]))
        sub["rollupUsage"] = "ROLLUP_RAW"
    if rng.random() < 0.25:
        sub["rate"] = True
        if rng.random() < 0.6:
            o = {"counter": rng.random() < 0.7}
            if rng.random() < 0.6:
                o["counterMax"] = rng.choice([100, 65535, 2 ** 32])
                if rng.random() < 0.6:
                    o["resetValue"] = rng.choice([1, 10, 1000])
                    if rng.random() < 0.5:
                        o["dropResets"] = rng.random() < 0.5
            sub["rateOptions"] = o
    return sub


def gen_form(rng):
    f = {"kind": rng.choice(["get", "post", "post"]), "str": rng.random() < 0.3, "unit": rng.choice(["s", "ms", "asis"]),
         "eunit": rng.choice(["s", "ms", "asis"]), "fresh": rng.random() < 0.2, "seed": rng.randrange(1 << 30),
         "msas": rng.choice(["msResolution", "ms"]), "other": rng.random() < 0.3}
    if f["kind"] == "post":
        f.update({"indent": rng.choice([None, None, 0, 2]), "compress": rng.choice(["", "", "", "gzip", "deflate"]),
                  "with": [gen_sub(rng) for _ in range(rng.choice([0, 0, 0, 1, 3]))], "shuffle": rng.random() < 0.5})
    else:
        f.update({"escape": rng.choice(["all", "some", "lower"]), "quoted": rng.random() < 0.2, "shuffle": rng.random() < 0.5})
    return f


def generate(rng, tier, i):
    conf = hist.gen_conf(rng)
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    series = hist.gen_series(rng, rng.choice([1, 3, 8]), ["m", "n.x_y"])
    whole = rng.random() < 0.5
    ops = Q.gen_grid_ops(rng, ms, series, hist.NOW - rng.randint(0, 3 * hist.DAY), rng.choice([3, 20, 50]), whole=whole,
                         kinds=["int", "counter", "walk"] if rng.random() < 0.5 else None)
    times = Q.times_of(ops) or [hist.NOW * unit]
    queries = []
    for _ in range(24):
        lo, hi = Q.gen_range(rng, ms, times)
        if ms and rng.random() < 0.5:
            lo, hi = lo - lo % 1000, hi - hi % 1000
        queries.append({"lo": lo, "hi": hi, "msResolution": rng.random() < 0.5, "sub": gen_sub(rng),
                        "forms": [gen_form(rng) for _ in range(4)]})
    return {"conf": conf, "series": series, "ops": ops, "queries": queries, "whole": whole}


def instant(t, ms, unit):
    """The same instant in another unit, where that loses nothing."""
    if unit == "s" and ms and t % 1000 == 0:
        return t // 1000
    if unit == "ms" and not ms:
        return t * 1000
    return t


def esc(text, how, rng):
    if how == "all":
        return quote(text, safe="")
    if how == "lower":
        return "".join(c if c.isalnum() or c in "._-" else "%%%02x" % ord(c) for c in text)
    # as typed: only what would end the value or the request line is escaped
    return "".join(c if c.isalnum() or c in "._-:{}=,*|()" and rng.random() < 0.9 else "%%%02X" % ord(c) for c in text)


def get_path(q, f, ms, msres):
    rng = random.Random(f["seed"])
    s = q["sub"]
    parts = []
    if s.get("rate"):
        o = s.get("rateOptions")
        if o is None:
            parts.append("rate")
        else:
            a = ["true" if o["counter"] else "false"]
            if "counterMax" in o:
                a.append(str(o["counterMax"]))
                if "resetValue" in o:
                    a.append(str(o["resetValue"]))
                    if "dropResets" in o:
                        a.append("true" if o["dropResets"] else "false")
            parts.append("rate{%s}" % ",".join(a))
    if s.get("downsample"):
        parts.append(s["downsample"])
    if s.get("rollupUsage"):
        parts.append("rollupUsage=" + s["rollupUsage"])
    if f["shuffle"]:
        rng.shuffle(parts)
    m = ":".join([s["aggregator"]] + parts + [s["metric"]])
    tags = list((s.get("tags") or {}).items())
    if f["shuffle"]:
        rng.shuffle(tags)
    if tags:
        m += "{" + ",".join(('"%s"="%s"' if f["quoted"] else "%s=%s") % kv for kv in tags) + "}"
    ps = ["start=%d" % instant(q["lo"], ms, f["unit"]), "end=%d" % instant(q["hi"], ms, f["eunit"]), "m=" + esc(m, f["escape"], rng)]
    if msres:
        ps.append("ms" if f["msas"] == "ms" else "msResolution=true")
    if f["shuffle"]:
        rng.shuffle(ps)
    return "/api/query?" + "&".join(ps)


def shuffled(x, rng):
    if isinstance(x, dict):
        ks = list(x)
        rng.shuffle(ks)
        return {k: shuffled(x[k], rng) for k in ks}
    return x


def post_body(q, f, ms, msres):
    rng = random.Random(f["seed"])
    lo, hi = instant(q["lo"], ms, f["unit"]), instant(q["hi"], ms, f["eunit"])
    b = {"start": str(lo) if f["str"] else lo, "end": str(hi) if f["str"] else hi}
    if msres or rng.random() < 0.5:
        if msres and f["msas"] == "ms":
            b["ms"] = True
        else:
            b["msResolution"] = bool(msres)
    subs = [dict(s) for s in f["with"]]
    subs.insert(rng.randint(0, len(subs)), dict(q["sub"]))
    if f["shuffle"]:
        subs = [shuffled(s, rng) for s in subs]
    b["queries"] = subs
    if f["shuffle"]:
        b = shuffled(b, rng)
    if f["indent"] is not None:
        return json.dumps(b, indent=f["indent"])
    return json.dumps(b, separators=(",", ":") if rng.random() < 0.5 else None)


def request(sv, f, method, path, body, headers):
    if f.get("fresh"):
        c = Conn(sv.http_port, probe=sv.failure)
        try:
            return c.request(method, path, body, headers)
        except OSError as e:
            raise sv.died(e)
        finally:
            c.close()
    return sv.request(method, path, body, headers)


def ask(sv, q, f, ms, msres):
    if f["kind"] == "get":
        path, body, hd = get_path(q, f, ms, msres), None, []
        r = request(sv, f, "GET", path, None, ())
        text = path
    else:
        text = body = post_body(q, f, ms, msres)
        hd = [("Content-Type", "application/json")]
        if f["compress"]:
            c = zlib.compressobj(6, zlib.DEFLATED, 31 if f["compress"] == "gzip" else 15)
            body = c.compress(body.encode()) + c.flush()
            hd.append(("Content-Encoding", f["compress"]))
        r = request(sv, f, "POST", "/api/query", body, hd)
    if r.status != 200:
        raise HttpError("%s -> %s" % (text, r))
    return canon(parse_json(r.body)), text


def canon(ans):
    out = []
    for r in ans:
        out.append((r["metric"], tuple(sorted(r["tags"].items())), tuple(sorted(r["aggregateTags"])),
                    tuple((int(t), float(v) if not isinstance(v, str) else Q._special(v)) for t, v in r["dps"].items())))
    return canonical_sort(out)


def same(a, b):
    if len(a) != len(b):
        return "%d groups against %d" % (len(a), len(b))
    for x, y in zip(a, b):
        if x[:3] != y[:3]:
            return "group %r against %r" % (x[:3], y[:3])
        if [t for t, _ in x[3]] != [t for t, _ in y[3]]:
            return "times of %r: %r against %r" % (x[:3], [t for t, _ in x[3]][:10], [t for t, _ in y[3]][:10])
        scale = max([abs(v) for _, v in x[3] if v == v and abs(v) != float("inf")], default=0.0)
        for (t, v), (_, u) in zip(x[3], y[3]):
            if not M.close(v, u, 1e-9 + 1e-9 * scale, 1e-9):
                return "%r at %d: %r against %r" % (x[:3], t, v, u)
    return None


PLAIN = {"kind": "post", "str": False, "unit": "asis", "eunit": "asis", "fresh": False, "seed": 2, "msas": "msResolution", "indent": None,
         "compress": "", "with": [], "shuffle": False, "other": False}


def run(case, ctx):
    with World(case, ctx) as w:
        w.start()
        for op in case["ops"]:
            w.step(op)
        good = 0
        for q in case["queries"]:
            msres = q["msResolution"]
            base, text = ask(w.sv, q, PLAIN, w.ms, msres)
            for f in q["forms"]:
                want = base
                for s in f.get("with") or []:
                    want = want + ask(w.sv, dict(q, sub=s), PLAIN, w.ms, msres)[0]
                want = canonical_sort(want)
                got, text2 = ask(w.sv, q, f, w.ms, msres)
                d = same(want, got)
                if d:
                    raise Violation("%s\nand\n%s\ndiffer: %s" % (text, text2, d))
                # on whole seconds the unit of the answer only changes how times are written
                if f["other"] and not f.get("with") and (not w.ms or case["whole"]) and not ds_odd(q):
                    other, text3 = ask(w.sv, q, f, w.ms, not msres)
                    k = (lambda t: t // 1000) if msres else (lambda t: t * 1000)
                    d = same([g[:3] + (tuple((k(t), v) for t, v in g[3]),) for g in base], other)
                    if d:
                        raise Violation("%s\nand, in the other unit,\n%s\ndiffer: %s" % (text, text3, d))
                    ctx.label("other_unit")
                ctx.label("form_" + f["kind"])
            if any(g[3] for g in base) and len(q["forms"]) >= 1:
                good += 1
        w.sv.stop()
        ctx.label("queries", len(case["queries"]))
        ctx.nontrivial = good >= 5


def ds_odd(q):
    """'all' takes the start of the range as its time, which may not be a whole second."""
    return "all" in q["sub"].get("downsample", "") and q["lo"] % 1000 != 0


def canonical_sort(groups):
    return sorted(groups, key=lambda x: (x[:3], [p[0] for p in x[3]], [p[1] if p[1] == p[1] else -1e308 for p in x[3]]))
