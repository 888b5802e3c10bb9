"""Reference model of the store: naive definitions, no attempt at speed."""
import math

from .runner import Violation

DAY = 86400


def skey(series):
    return (series["m"], frozenset(series["t"].items()))


def close(a, b, abs_tol=1e-6, rel_tol=1e-9):
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    if isinstance(b, float) and math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_tol, rel_tol * max(abs(a), abs(b)))


class Model:
    """{(metric, tags): {time: value}}; times in the unit of storage."""

    def __init__(self, ms=True):
        self.ms = ms
        self.d = {}

    def put(self, series, t, v):
        self.d.setdefault(skey(series), {})[t] = v

    def metrics(self):
        return sorted({k[0] for k in self.d})

    def of_metric(self, metric):
        return {k[1]: pts for k, pts in self.d.items() if k[0] == metric}

    def clone(self):
        m = Model(self.ms)
        m.d = {k: dict(v) for k, v in self.d.items()}
        return m


def scaled(abs_tol=1e-7, rel_tol=1e-9):
    """Comparison for one stored series. The delta codecs carry rounding of the largest values of a
    series over to its smallest ones, so what counts as equal depends on the scale of the series."""
    def mk(points):
        scale = max((abs(v) for v in points.values() if math.isfinite(v)), default=0.0)
        tol = abs_tol + rel_tol * scale
        return lambda a, b: close(a, b, tol, rel_tol)
    return mk


def diff_series(exp, got, mk=None, what="", scale_of=None):
    """First difference between {tags: {t: v}} maps, or None."""
    mk = mk or scaled()
    for k in exp:
        if k not in got:
            if exp[k]:
                return "%sseries %s missing (%d points expected)" % (what, sorted(k), len(exp[k]))
            continue
        e, g = exp[k], got[k]
        if len(e) != len(g) or e.keys() != g.keys():
            miss = sorted(set(e) - set(g))
            extra = sorted(set(g) - set(e))
            return "%sseries %s: %d of %d points missing %s, %d unexpected %s" % (
                what, sorted(k), len(miss), len(e), miss[:5], len(extra), [(t, g[t]) for t in extra[:5]])
        same = mk((scale_of or exp).get(k, e))
        for t in e:
            if not same(e[t], g[t]):
                return "%sseries %s at %d: expected %r, got %r" % (what, sorted(k), t, e[t], g[t])
    for k in got:
        if k not in exp and got[k]:
            return "%sunexpected series %s with %d points" % (what, sorted(k), len(got[k]))
    return None


def expect_series(exp, got, what="", mk=None, scale_of=None):
    d = diff_series(exp, got, mk, what, scale_of)
    if d:
        raise Violation(d)


# naive query semantics ------------------------------------------------------------

def percentile(vals, p):
    """Value at position p*(n+1) of the sorted values, interpolated, clamped to the ends."""
    v = sorted(vals)
    n = len(v)
    pos = p / 100.0 * (n + 1)
    if pos < 1:
        return v[0]
    if pos >= n:
        return v[-1]
    k = int(math.floor(pos))
    return v[k - 1] + (pos - k) * (v[k] - v[k - 1])


def apply(func, vals):
    """vals in time order"""
    if func == "sum":
        return math.fsum(vals)
    if func == "avg":
        return math.fsum(vals) / len(vals)
    if func == "count":
        return float(len(vals))
    if func == "min":
        return min(vals)
    if func == "max":
        return max(vals)
    if func == "first":
        return vals[0]
    if func == "last":
        return vals[-1]
    if func == "dev":
        m = math.fsum(vals) / len(vals)
        return math.sqrt(max(0.0, math.fsum((x - m) ** 2 for x in vals) / len(vals)))
    if func[0] == "p":
        return percentile(vals, percent(func))
    raise ValueError(func)


def percent(func):
    digits = func[1:]
    return int(digits) / (10.0 ** (len(digits) - 2)) if len(digits) > 2 else float(digits)
