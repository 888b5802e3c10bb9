"""Naive evaluation of queries over the reference model, and their generation."""
import math
import re

from . import model as M
from .runner import Violation

UNIT = {"ms": 1, "s": 1000, "m": 60000, "h": 3600000, "d": 86400000, "w": 604800000}


# tag filters ----------------------------------------------------------------------------

def _args(f):
    return f[f.index("(") + 1:-1]


def _glob(pattern, text, icase=False):
    rx = "".join(".*" if c == "*" else re.escape(c) for c in pattern)
    return re.fullmatch(rx, text, re.S | (re.I if icase else 0)) is not None


def matches(cond, value):
    """Does a tag value satisfy a condition?"""
    if cond.startswith("literal_or("):
        return value in _args(cond).split("|")
    if cond.startswith("iliteral_or("):
        return value.lower() in _args(cond).lower().split("|")
    if cond.startswith("not_literal_or("):
        return value not in _args(cond).split("|")
    if cond.startswith("not_iliteral_or("):
        return value.lower() not in _args(cond).lower().split("|")
    if cond.startswith("wildcard("):
        return _glob(_args(cond), value)
    if cond.startswith("iwildcard("):
        return _glob(_args(cond), value, True)
    if cond.startswith("regexp("):
        return re.fullmatch(_args(cond), value) is not None
    if cond.endswith("*"):
        return _glob(cond, value)
    if "|" in cond:
        return value in cond.split("|")
    return value == cond


def select(model, sub):
    """Series of the metric satisfying every condition: {tags: points}"""
    conds = dict(sub.get("tags") or {})
    out = {}
    for tags, pts in model.of_metric(sub["metric"]).items():
        d = dict(tags)
        if all(k in d and matches(c, d[k]) for k, c in conds.items()):
            if sub.get("explicit") and len(d) != len(conds):
                continue
            out[tags] = pts
    return out


# downsampling ---------------------------------------------------------------------------

def interval_of(spec, unit_ms):
    """Bucket width in units of storage; None for 'all'."""
    iv = spec.split("-")[0]
    if iv.endswith("all"):
        return None
    m = re.fullmatch(r"(\d+)(ms|s|m|h|d|w)", iv)
    w = int(m.group(1)) * UNIT[m.group(2)]
    return max(1, w // (1 if unit_ms else 1000))


def downsample(pts, spec, lo, hi, unit_ms):
    """pts {t: v} of one series -> {bucket start: value}. A bucket is in range when its start is;
    it covers all its points, also those after the end of the range."""
    part = spec.split("-")
    func, fill = part[1], (part[2] if len(part) > 2 else None)
    if func == "none":
        return {t: v for t, v in pts.items() if lo <= t <= hi}
    w = interval_of(spec, unit_ms)
    b = {}
    for t in sorted(pts):
        if w is None:
            if lo <= t <= hi:
                b.setdefault(lo, []).append(pts[t])
        else:
            s = t - t % w
            if lo <= s <= hi:
                b.setdefault(s, []).append(pts[t])
    out = {s: M.apply(func, v) for s, v in b.items()}
    if fill in ("zero", "nan", "null"):
        fv = 0.0 if fill == "zero" else math.nan
        if w is None:
            out.setdefault(lo, fv)
        else:
            s = -(-lo // w) * w
            while s <= hi:
                out.setdefault(s, fv)
                s += w
    return out


# aggregation ----------------------------------------------------------------------------

def group(series, sub):
    """[(tags, aggregated keys, [points of members])]"""
    agg = sub.get("aggregator", "none")
    if agg == "none":
        return [(dict(k), [], [p]) for k, p in series.items()]
    keys = sorted(k for k in (sub.get("tags") or {}) if k not in (sub.get("nongroup") or ()))
    g = {}
    for k, p in series.items():
        d = dict(k)
        g.setdefault(tuple(d[x] for x in keys), []).append((d, p))
    out = []
    for members in g.values():
        ks = set.intersection(*[set(d) for d, _ in members])
        tags = {k: members[0][0][k] for k in ks if len({d[k] for d, _ in members}) == 1}
        akeys = sorted(ks - set(tags))
        if any("_field" in d for d, _ in members) and not all("_field" in d for d, _ in members):
            akeys.append("_field?")     # a missing field may count as a value of its own
        out.append((tags, akeys, [p for _, p in members]))
    return out


def aggregate(func, members):
    ts = sorted({t for p in members for t in p})
    return {t: M.apply(func, [p[t] for p in members if t in p]) for t in ts}


def rate(pts, opts, unit_ms):
    out = {}
    prev = None
    for t in sorted(pts):
        v = pts[t]
        if prev is not None:
            dt = (t - prev[0]) / (1000.0 if unit_ms else 1.0)
            dv = v - prev[1]
            if opts.get("counter") and dv < 0:
                if not opts.get("dropResets"):
                    r = (float(opts.get("counterMax", 18446744073709551615)) - prev[1] + v) / dt
                    rv = opts.get("resetValue", 0)
                    out[t] = 0.0 if rv and r > rv else r
            else:
                out[t] = dv / dt
        prev = (t, v)
    return out


def evaluate(model, q, sub):
    """Expected groups: [(tags, aggregated keys, {t: v})], times in the unit of the answer."""
    ms = model.ms
    lo, hi = q["lo"], q["hi"]            # units of storage
    series = select(model, sub)
    ds = sub.get("downsample")
    per = {}
    for k, p in series.items():
        r = downsample(p, ds, lo, hi, ms) if ds else {t: v for t, v in p.items() if lo <= t <= hi}
        if r:
            per[k] = r
    out_ms = bool(q.get("msResolution"))
    conv = (lambda t: t) if out_ms == ms else ((lambda t: t * 1000) if out_ms else (lambda t: t // 1000))
    res = []
    agg = sub.get("aggregator", "none")
    for tags, akeys, members in group(per, sub):
        pts = members[0] if agg == "none" else aggregate(agg, members)
        if sub.get("rate"):
            pts = rate(pts, sub.get("rateOptions") or {}, ms)
        if pts or True:
            res.append((tags, akeys, {conv(t): v for t, v in pts.items()}))
    return res


def render(q, subs, lo_unit=1):
    """POST body; lo/hi are in units of storage."""
    body = {"start": q["lo"], "end": q["hi"], "msResolution": bool(q.get("msResolution"))}
    body["queries"] = []
    for s in subs:
        d = {k: v for k, v in s.items() if k not in ("nongroup", "explicit")}
        body["queries"].append(d)
    return body


def canon(answer):
    out = {}
    for r in answer:
        key = (r["metric"], frozenset(r["tags"].items()))
        pts = [(int(t), float(v) if not isinstance(v, str) else _special(v)) for t, v in r["dps"].items()]
        out.setdefault(key, []).append((sorted(r["aggregateTags"]), pts))
    return out


def _special(v):
    return {"NaN": math.nan, "Inf": math.inf, "-Inf": -math.inf}[v]


def compare(exp, answer, metric, tol, rel=1e-9, what="", empty_ok=True, value_tol=None):
    """Expected groups against the decoded answer; raises Violation on the first difference."""
    got = canon(answer)
    for (m, _) in got:
        if m != metric:
            raise Violation("%sanswer names metric %r instead of %r" % (what, m, metric))
    want = {}
    for tags, akeys, pts in exp:
        want.setdefault((metric, frozenset(tags.items())), []).append((akeys, pts))
    for key, lst in want.items():
        nonempty = [x for x in lst if x[1]]
        have = [x for x in got.pop(key, []) if x[1] or not empty_ok]
        if len(nonempty) != len(have):
            raise Violation("%sgroup %s: %d expected, %d returned" % (what, sorted(key[1]), len(nonempty), len(have)))
        # equal tags can only denote several groups when their sets of aggregated tags or points
        # differ; pair them up in order of content
        nonempty.sort(key=lambda x: (x[0], sorted(x[1].items())))
        have.sort(key=lambda x: (x[0], x[1]))
        for (akeys, pts), (gkeys, gpts) in zip(nonempty, have):
            if "_field?" in akeys:
                akeys = [k for k in akeys if k != "_field?"]
                gkeys = [k for k in gkeys if k != "_field"]
            if sorted(akeys) != gkeys:
                raise Violation("%sgroup %s: aggregated tags %r expected, %r returned" % (what, sorted(key[1]), sorted(akeys), gkeys))
            times = [t for t, _ in gpts]
            if any(b <= a for a, b in zip(times, times[1:])):
                raise Violation("%sgroup %s: times not ascending: %r" % (what, sorted(key[1]), times[:20]))
            if times != sorted(pts):
                miss, extra = sorted(set(pts) - set(times)), sorted(set(times) - set(pts))
                raise Violation("%sgroup %s: %d of %d times missing %r, %d unexpected %r" % (
                    what, sorted(key[1]), len(miss), len(pts), [(t, pts[t]) for t in miss[:5]], len(extra),
                    [(t, dict(gpts)[t]) for t in extra[:5]]))
            for t, v in gpts:
                e = pts[t]
                if not M.close(e, v, value_tol(e) if value_tol else tol, rel):
                    raise Violation("%sgroup %s at %d: %r expected, %r returned" % (what, sorted(key[1]), t, e, v))
    for key, lst in got.items():
        if any(x[1] for x in lst) or not empty_ok:
            raise Violation("%sunexpected group %s with %d points" % (what, sorted(key[1]), sum(len(x[1]) for x in lst)))


# generation -----------------------------------------------------------------------------

def gen_grid_ops(rng, ms, series, start, npts, hole=None, whole=None, kinds=None, late=0.0):
    """Points on a shared grid of times with holes; returns batches of writes in a generated order."""
    from . import hist
    unit = 1000 if ms else 1
    step = rng.choice([1, 1, 5, 10, 30, 60, 300, 1800, 3600, 7200]) * unit
    if ms and whole is False and rng.random() < 0.4:
        step = rng.choice([1, 7, 100, 250, 999])
    off = rng.randrange(unit) if ms and not whole and rng.random() < 0.5 else 0
    t, grid = start * unit + off, []
    for _ in range(npts):
        grid.append(t)
        t += step * (rng.choice([2, 3, 10]) if rng.random() < 0.05 else 1)
        if ms and whole is False and rng.random() < 0.1:
            t += rng.randrange(1, 999)
    pts = []
    for i in range(len(series)):
        keep = 1.0 - (rng.choice([0, 0.1, 0.5, 0.9]) if hole is None else hole)
        kind, v = rng.choice(kinds or hist.KINDS), 0.0
        for t in grid:
            if rng.random() < keep:
                v = hist.gen_value(rng, kind, v)
                pts.append([i, t, v])
    order = rng.random()
    if order < 0.7:
        pts.sort(key=lambda p: (p[1], p[0]))
    if late:
        for _ in range(int(len(pts) * late)):
            a = rng.randrange(len(pts))
            pts.append(pts.pop(a))
    ops, k = [], 0
    while k < len(pts):
        n = rng.choice([5, 40, 200, 400])
        ops.append({"op": "put", "via": rng.choice(["plain", "plain", "json", "gzip"]), "pts": pts[k:k + n]})
        k += n
    return ops


def instants(rng, ms, series_points):
    """Instants that matter to storage: points and their neighbours, ends of days and half days."""
    unit = 1000 if ms else 1
    day = 86400 * unit
    ts = sorted({t for t in series_points})
    if not ts:
        return 1_700_000_000 * unit
    t = rng.choice(ts) if rng.random() < 0.8 else rng.choice([ts[0], ts[-1]])
    x = rng.random()
    if x < 0.35:
        return t
    if x < 0.55:
        return t + rng.choice([-1, 1])
    if x < 0.7:
        return t - t % day + rng.choice([-1, 0, 1]) + rng.choice([0, day])
    if x < 0.78:
        return t - t % (day // 2) + rng.choice([-1, 0, 1])
    if x < 0.86:
        return t - t % (3600 * unit) + rng.choice([-1, 0, 1, 3600 * unit])
    if x < 0.93:
        return ts[0] - rng.choice([1, unit, 3600 * unit, day, 40 * day])
    return ts[-1] + rng.choice([1, unit, 3600 * unit, day])


def gen_range(rng, ms, times, reversed_ok=False):
    a, b = instants(rng, ms, times), instants(rng, ms, times)
    x = rng.random()
    if x < 0.1:
        b = a
    elif x < 0.2:
        a, b = min(times, default=a) - 1, max(times, default=b) + 1
    if a > b and not (reversed_ok and rng.random() < 0.2):
        a, b = b, a
    return a, b


def times_of(ops):
    return [p[1] for o in ops if o["op"] == "put" for p in o["pts"]]


def tolerance(model, sub, exp):
    """How far a correct answer may be from the exact value: rounding of the lossy codecs grows with
    the scale of the series, and functions pass it on."""
    pts = select(model, sub)
    scale = max((abs(v) for p in pts.values() for v in p.values() if math.isfinite(v)), default=0.0)
    base = 2e-7 + 2e-9 * scale
    n = 1
    funcs = {sub.get("aggregator", "none"), (sub.get("downsample") or "-none").split("-")[1]}
    if "sum" in funcs:
        n *= max(10, sum(len(p) for p in pts.values()))
    if "dev" in funcs:
        base *= 50
    if sub.get("rate"):
        ts = sorted({t for _, _, p in exp for t in p})
        base *= 2000
    return base * n


def get_url(q, sub):
    """The same query as a GET request."""
    from urllib.parse import quote
    m = sub.get("aggregator", "none")
    if sub.get("rate"):
        m += ":rate"
    if sub.get("downsample"):
        m += ":" + sub["downsample"]
    if sub.get("explicit"):
        m += ":explicit_tags"
    if sub.get("rollupUsage"):
        m += ":rollupUsage=" + sub["rollupUsage"]
    m += ":" + sub["metric"]
    tags = sub.get("tags") or {}
    ng = sub.get("nongroup") or ()
    g = ["%s=%s" % (k, v) for k, v in tags.items() if k not in ng]
    n = ["%s=%s" % (k, v) for k, v in tags.items() if k in ng]
    if g or n:
        m += "{" + ",".join(g) + "}"
    if n:
        m += "{" + ",".join(n) + "}"
    u = "/api/query?start=%d&end=%d&m=%s" % (q["lo"], q["hi"], quote(m, safe=""))
    if q.get("msResolution"):
        u += "&msResolution=true"
    return u


def ask(sv, q, sub):
    if q.get("get"):
        from .server import HttpError, parse_json
        r = sv.get(get_url(q, sub))
        if r.status != 200:
            raise HttpError("%s -> %s" % (get_url(q, sub), r))
        return parse_json(r.body)
    return sv.query(render(q, [sub]))
