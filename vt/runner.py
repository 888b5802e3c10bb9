"""Runs one property's check: generation, parallel execution, confirmation, shrinking, evidence."""
import argparse
import atexit
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import build, server

VERIF = build.VERIF


class Violation(Exception):
    """The property does not hold on this case."""


class Ctx:
    """What a case may record about itself."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = False
        self.notes = []

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


def rng_for(seed, prop, i):
    h = hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_case(mod, case):
    """(violation text or None, ctx). Anything but a violation propagates."""
    ctx = Ctx()
    try:
        mod.run(case, ctx)
    except Violation as e:
        return str(e), ctx
    except (server.ServerDied, server.StartFailed) as e:
        return "%s: %s" % (type(e).__name__, e), ctx
    except server.HttpError as e:
        return "unexpected answer: %s" % e, ctx
    return None, ctx


def _worker(wid, workers, mod_name, seed, tier, n, out, stop, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        # never outlive the check
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except OSError:
        pass
    server.Ports.worker(wid)
    mod = importlib.import_module(mod_name)
    i = wid
    while i < n and not stop.is_set() and time.monotonic() < deadline:
        try:
            case = mod.generate(rng_for(seed, mod.ID, i), tier, i)
            t0 = time.monotonic()
            bad, ctx = run_case(mod, case)
            out.put(("case", i, case_hash(case), bad, ctx.labels, ctx.nontrivial, case if (bad or i < 64) else None,
                     time.monotonic() - t0))
            if bad:
                stop.set()
        except BaseException:
            out.put(("error", i, traceback.format_exc()))
            stop.set()
            break
        i += workers
    out.put(("done", wid))


def explore(mod, mod_name, seed, tier, n, workers, limit):
    out, stop = mp.Queue(), mp.Event()
    deadline = time.monotonic() + limit
    procs = [mp.Process(target=_worker, args=(w, workers, mod_name, seed, tier, n, out, stop, deadline), daemon=True)
             for w in range(workers)]
    for p in procs:
        p.start()
    res = {"evaluations": 0, "hashes": set(), "labels": {}, "failures": [], "errors": [], "samples": [], "slowest": 0.0}
    done = 0
    while done < workers:
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                break
            continue
        if m[0] == "done":
            done += 1
        elif m[0] == "error":
            res["errors"].append("case %d:\n%s" % (m[1], m[2]))
        else:
            _, i, h, bad, labels, nontrivial, case, took = m
            res["evaluations"] += 1
            res["slowest"] = max(res["slowest"], took)
            for k, v in labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            if nontrivial:
                res["hashes"].add(h)
                if case is not None and len(res["samples"]) < 3:
                    res["samples"].append({"case": i, "content": case})
            if bad:
                res["failures"].append((i, case, bad))
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.terminate()
    return res


# shrinking ---------------------------------------------------------------------

def _get(case, path):
    for k in path:
        case = case[k]
    return case


def _lists(case, patterns):
    """Concrete paths to lists named by patterns such as 'ops' or 'ops.*.pts'."""
    found = []

    def walk(node, pat, path):
        if not pat:
            if isinstance(node, list) and node:
                found.append(path)
            return
        k = pat[0]
        if k == "*":
            if isinstance(node, list):
                for j in range(len(node)):
                    walk(node[j], pat[1:], path + [j])
        elif isinstance(node, dict) and k in node:
            walk(node[k], pat[1:], path + [k])
        elif isinstance(node, list) and k.isdigit() and int(k) < len(node):
            walk(node[int(k)], pat[1:], path + [int(k)])
    for p in patterns:
        walk(case, p.split("."), [])
    return found


def shrink(mod, case, fails, budget):
    t_end = time.monotonic() + budget
    best = copy.deepcopy(case)
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for path in _lists(best, getattr(mod, "SHRINK", ["ops"])):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            step = max(1, len(lst) // 2)
            while step >= 1 and time.monotonic() < t_end:
                j = 0
                while j < len(_get(best, path)) and time.monotonic() < t_end:
                    cand = copy.deepcopy(best)
                    del _get(cand, path)[j:j + step]
                    if fails(cand):
                        best = cand
                        progress = True
                    else:
                        j += step
                step //= 2
        simplify = getattr(mod, "simplify", None)
        if simplify:
            for cand in simplify(copy.deepcopy(best)):
                if time.monotonic() >= t_end:
                    break
                if fails(cand):
                    best = cand
                    progress = True
    return best


# main --------------------------------------------------------------------------

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--start", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VT_WORKERS", "0")) or (os.cpu_count() or 4))
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    mod_name = "checks." + a.property.lower()
    mod = importlib.import_module(mod_name)

    base = tempfile.mkdtemp(prefix="vtrun-")
    owner = os.getpid()

    def clean():
        if os.getpid() == owner and os.path.basename(base).startswith("vtrun-"):
            shutil.rmtree(base, ignore_errors=True)
    atexit.register(clean)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    server._base = base

    for need in getattr(mod, "BUILD", ["server:rel", "shim:"]):
        kind, _, arg = need.partition(":")
        if kind == "server":
            server._exe[arg] = build.server(arg)
        elif kind == "shim":
            server.build_shim(arg or "rel")
        elif kind == "tool":
            build.tool(arg)
        elif kind == "native":
            build.native(arg)

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        server.Ports.worker(40)
        bad = None
        for k in range(int(os.environ.get("VT_REPLAYS", "3"))):
            bad, _ = run_case(mod, rep["case"])
            print("replay %d: %s" % (k + 1, bad or "held"))
            if bad:
                break
        if bad:
            print("VIOLATION property=%s replay=%s" % (mod.ID, a.replay))
            return 1
        return 0

    n = a.n or mod.N[tier]
    limit = getattr(mod, "LIMIT", {}).get(tier, 300 if tier == "quick" else 800)
    res = explore(mod, mod_name, seed, tier, n, a.workers, limit)
    explore_s = time.monotonic() - t0

    confirmed = None
    unconfirmed = 0
    server.Ports.worker(40)
    for i, case, text in sorted(res["failures"], key=lambda f: f[0]):
        tries = getattr(mod, "CONFIRM", 3)
        again = 0
        for _ in range(tries):
            bad, _ctx = run_case(mod, case)
            if bad:
                again += 1
                text = bad
                break
        if again or (getattr(mod, "SELF_EVIDENT", None) and mod.SELF_EVIDENT(text)):
            confirmed = (i, case, text, again > 0)
            break
        unconfirmed += 1

    violations = 1 if confirmed else 0
    cov = {
        "evaluations": res["evaluations"],
        "distinct_nontrivial": len(res["hashes"]),
        "rule": mod.RULE,
        "samples": [_trim(s) for s in res["samples"]],
        "labels": dict(sorted(res["labels"].items())),
        "cases_planned": n,
        "slowest_case_s": round(res["slowest"], 2),
        "unconfirmed_failures": unconfirmed,
    }
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.monotonic() - t0, 2),
          "violations": violations}

    def write_evidence():
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev["wall_s"] = round(time.monotonic() - t0, 2)
        tmp = os.path.join(VERIF, "evidence", mod.ID + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", mod.ID + ".json"))
    write_evidence()

    if confirmed:
        i, case, text, reproducible = confirmed
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        small = case
        if reproducible:
            def kind(t):
                # a smaller case has to fail in the same way, not in any way
                return t and t.split(":")[0] if t and t.split(":")[0] in ("ServerDied", "StartFailed", "unexpected answer") else bool(t)

            def fails(c):
                try:
                    tries = getattr(mod, "SHRINK_TRIES", 1)
                    return any(kind(run_case(mod, c)[0]) == kind(text) for _ in range(tries))
                except Exception:
                    return False
            small = shrink(mod, case, fails, getattr(mod, "SHRINK_S", 60 if tier == "quick" else 120))
            if small != case:
                bad, _ = run_case(mod, small)
                if not bad:
                    bad, _ = run_case(mod, small)
                if bad:
                    text = bad
                else:
                    small = case
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (mod.ID, case_hash(small)))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "seed": seed, "tier": tier, "index": i, "text": text, "case": small}, f, indent=1)
        print("case %d: %s" % (i, text[:3000]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        write_evidence()
        return 1

    if res["errors"]:
        print("ERROR of the check:\n" + "\n".join(res["errors"][:3]))
        return 2
    if res["evaluations"] < max(1, n // 10):
        print("ERROR: only %d of %d cases ran" % (res["evaluations"], n))
        return 2
    for i, case, text in res["failures"]:
        print("note: case %d failed once and held in every rerun: %s" % (i, text[:1500]))
    print("held: property=%s cases=%d nontrivial=%d wall=%.1fs labels=%s" % (
        mod.ID, res["evaluations"], len(res["hashes"]), time.monotonic() - t0, json.dumps(cov["labels"])))
    return 0


def _trim(sample):
    """Samples are written out, but not megabytes of them."""
    s = json.dumps(sample)
    if len(s) <= 6000:
        return sample
    return {"case": sample["case"], "content_head": s[:6000], "content_bytes": len(s)}
