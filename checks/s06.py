"""S06: numbers come back as written."""
import math
import struct

from vt import hist
from vt.hist import World
from vt.runner import Violation

ID = "S06"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing of the storage round trip: generated sequences of values and time gaps aimed at the "
             "encodings (unit steps, runs, jumps over many magnitudes, random bit patterns), written to the real server with "
             "every codec and precision, read back before and after flushes and restarts, and compared with an error bound "
             "per point")
LEVEL_NOTE = ("Up to 3 series and 3000 points per case, precisions 0 to 12; the error bound is half a unit of the last kept "
              "decimal plus rounding at the scale of the neighbouring values; sampling, not exhaustive.")
RULE = "a case counts when a series of at least 20 points with at least 5 different values was compared"
N = {"quick": 2000, "thorough": 20000}
SHRINK = ["ops", "ops.*.pts", "series"]

PLANS = ["ramp", "stairs", "toggle", "runs", "dec", "decades", "bigint", "spikes", "bits", "slope", "counter", "tiny", "geo", "edge", "edge"]


def edge(rng, top):
    """A number next to a power of two, either sign."""
    return rng.choice([1, -1]) * ((1 << rng.randint(0, top)) + rng.choice([-1, 0, 0, 1]))


def values(rng, plan, p, n):
    """n finite values."""
    u = 10.0 ** -p
    k = rng.randint(-1000, 1000)
    base = rng.choice([0, 0, 1, 1000, 1e6, -5])
    step = rng.choice([1, 1, -1, 2, 7, 2047, 2048, 65535, 65536, 100000])
    slope = rng.uniform(-3, 3)
    v = 0.0
    out = []
    left = d = 0
    for i in range(n):
        if plan == "ramp":
            k += step
            v = base + round(k * u, p)
        elif plan == "stairs":
            k += rng.choice([0, 0, 0, 1, 1, -1])
            v = base + round(k * u, p)
        elif plan == "toggle":
            v = base + round((k + (i & 1) * rng.choice([1, step])) * u, p)
        elif plan == "runs":
            if left == 0:
                left = rng.choice([1, 2, 5, 126, 127, 128, 129, 255, 300])
                k, step = rng.randint(-5000, 5000), rng.choice([0, 0, 1, -3, 50])
            left -= 1
            k += step
            v = round(k * u, p)
        elif plan == "dec":
            v = round(rng.uniform(-1e4, 1e4), rng.randint(0, p))
        elif plan == "decades":
            v = round(rng.choice([1, -1]) * 10 ** rng.uniform(-p, 10), p)
        elif plan == "bigint":
            v = float(rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 63)))
        elif plan == "spikes":
            v = round(rng.uniform(0, 100), rng.randint(0, p))
            if rng.random() < 0.1:
                v = rng.choice([1, -1]) * 10.0 ** rng.randint(3, 25)
        elif plan == "bits":
            while True:
                v = struct.unpack("d", struct.pack("Q", rng.getrandbits(64)))[0]
                if math.isfinite(v) and 1e-200 < abs(v) < 1e200:
                    break
        elif plan == "slope":
            v = k + slope * i
        elif plan == "edge":
            e = edge(rng, rng.choice([12, 20, 34]))
            if rng.random() < 0.5:
                # the second difference, or else the first
                e = d - e if abs(d + e) > 1 << 35 else d + e
            d = e
            k = k - d if abs(k + d) > 1 << 36 else k + d
            v = round(k * u, p)
        elif plan == "counter":
            v += rng.choice([0, 1, 10, 1e3, 1e6]) * rng.randint(0, 9)
            if rng.random() < 0.01:
                v = 0.0
        elif plan == "tiny":
            v = rng.choice([1, -1]) * rng.uniform(0, 3) * u
        elif plan == "geo":
            v = (v or 1e-6) * rng.choice([-2.5, 1.5, 3.0, 0.3])
            if not 1e-12 < abs(v) < 1e17:
                v = 0.0
        out.append(v + 0.0)
    return out


def generate(rng, tier, i):
    codec = rng.choice([4, 4, 4, 3, 3, 2, 1, 0])
    p = rng.choice([8, 8, 0, 1, 2, 3, 4, 5, 6, 10, 12])
    conf = {"tsdb.timestamp.resolution": rng.choice(["millisecond", "second"]),
            "tsdb.compressor.version": codec, "tsdb.compressor.precision": p,
            "tsdb.page.size": rng.choice(["64b", "128b", "512b", "4096b", "16384b"])}
    ms = conf["tsdb.timestamp.resolution"][0] == "m"
    unit = 1000 if ms else 1
    n = rng.choice([3, 30, 100, 400, 1500])
    series = [{"m": "m", "t": {"h": "h%d" % j}} for j in range(rng.choice([1, 1, 2, 3]))]
    cols = []
    for s in series:
        parts = []
        while len(parts) < n:
            parts += values(rng, rng.choice(PLANS), p, rng.choice([10, 50, n]))
        t = (hist.NOW - rng.randint(0, 2 * hist.DAY)) * unit + (rng.randint(0, 999) if ms else 0)
        pace = rng.choice(["const", "const", "jit", "any", "edge", "edge", "mix"])
        g = rng.choice([1, 10, 60]) * unit
        last = g
        pts = []
        for v in parts[:n]:
            pts.append([t, v])
            q = rng.choice(["const", "jit", "any", "edge"]) if pace == "mix" and rng.random() < 0.2 else pace
            t1 = t
            if q == "jit":
                t += max(1, g + rng.randint(-5, 5))
            elif q == "edge":
                d = edge(rng, rng.choice([8, 11, 14, 17]))
                t += last + d if last + d > 0 else abs(d) if rng.random() < 0.5 else last - d
            elif q == "any":
                t += rng.choice([1, 1, 2, 1000, 2047, 2048, 4097, 65535, 65537, 131073, 3600 * unit]) * rng.choice([1, 1, unit])
            else:
                t += g
            last = t - t1
        cols.append(pts)
    ops = []
    at = [0] * len(series)
    while any(a < n for a in at):
        j = rng.randrange(len(series))
        k = rng.choice([1, 7, 50, 300])
        pts = [[j, t, v] for t, v in cols[j][at[j]:at[j] + k]]
        at[j] += k
        if pts:
            ops.append({"op": "put", "via": rng.choice(["plain", "json"]), "pts": pts})
        x = rng.random()
        if x < 0.03:
            ops.append({"op": "check"})
        elif x < 0.05:
            ops.append({"op": "restart"})
    if rng.random() < 0.5:
        ops.append({"op": "restart"})
    return {"conf": conf, "series": series, "ops": ops}


def check(w, codec, p, ms_out):
    lo, hi = w.span()
    got = w.sv.raw("m", lo, hi, ms=ms_out)
    u = 10.0 ** -p
    unit = 1000 if ms_out and not w.ms else 1
    for key, pts in w.model.of_metric("m").items():
        g = got.get(key, {})
        if [t * unit for t in sorted(pts)] != list(g):
            raise Violation("series %s: %d times written, %d returned, first difference %r" % (
                sorted(key), len(pts), len(g), next(((a, b) for a, b in zip([t * unit for t in sorted(pts)], g) if a != b), None)))
        near = [0.0, 0.0]
        for t in sorted(pts):
            v, x = pts[t], g[t * unit]
            tol = 2e-16 + 1e-15 * abs(v)
            if codec >= 3:
                scale = max(abs(v), max(near))
                tol += min(0.55 * u + 1e-13 * scale, max(u, 1e-6 * abs(v)))
            if not abs(v - x) <= tol:
                raise Violation("series %s at %d: %r written, %r returned (codec %d, precision %d, allowed error %g)" % (
                    sorted(key), t, v, x, codec, p, tol))
            near = [near[1], abs(v)]


def run(case, ctx):
    codec = int(case["conf"]["tsdb.compressor.version"])
    p = int(case["conf"]["tsdb.compressor.precision"])
    with World(case, ctx) as w:
        w.start()
        for op in case["ops"]:
            if op["op"] == "check":
                check(w, codec, p, w.ms)
            else:
                w.step(op)
        if w.model.d:
            check(w, codec, p, w.ms)
            if not w.ms:
                check(w, codec, p, True)
        w.sv.stop()
        for pts in w.model.d.values():
            ctx.label("points_compared", len(pts))
            if len(pts) >= 20 and len(set(pts.values())) >= 5:
                ctx.nontrivial = True
        ctx.label("lossy_codec", codec >= 3)
