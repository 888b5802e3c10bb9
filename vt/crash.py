"""Histories with crashes: what must, may and must not be there after a restart."""
import json
import math
import urllib.parse

from . import model as M
from .hist import World, num
from .runner import Violation
from .server import ServerDied, parse_json

# event kinds of the shim
FILE, CLOCK, MMAP, META = 1, 2, 4, 8
ALL = FILE | CLOCK | MMAP | META


class Crashed(Exception):
    pass


class CrashWorld(World):
    """cur: what a query must return now. durable: what must survive a kill at any later instant.
    alts: every value that may be found for a time, at the next start, besides the durable one."""

    def __init__(self, case, ctx=None, **kw):
        super().__init__(case, ctx, **kw)
        self.durable = {}
        self.alts = {}
        # a series without a field is kept under the field "_" in some cases
        self.names = {"metrics": set(), "tagk": {"_field"}, "tagv": {"_"}}

    # bookkeeping --------------------------------------------------------------
    def note(self, pts):
        for i, t, v in pts:
            s = self.series[i]
            self.alts.setdefault(M.skey(s), {}).setdefault(t, []).append(num(v))
            self.names["metrics"].add(s["m"])
            self.names["tagk"].update(s["t"])
            self.names["tagv"].update(s["t"].values())

    def flushed(self):
        """Everything accepted so far is covered by a completed flush."""
        self.durable = {k: dict(p) for k, p in self.model.d.items()}
        self.alts = {}

    # operations ---------------------------------------------------------------
    def put(self, via, pts):
        if not pts:
            return
        self.note(pts)
        r = self.send(via, pts)
        if r.status != 200:
            raise Violation("write of %d points via %s answered %s" % (len(pts), via, r))
        for i, t, v in pts:
            self.model.put(self.series[i], t, num(v))

    def step(self, op):
        if op["op"] == "flush":
            self.cp_all()
            self.flushed()
            self.ctx.label("op_flush")
        elif op["op"] == "restart":
            super().step(op)
            self.flushed()
        else:
            super().step(op)

    def kill(self):
        self.sv.kill()
        self.ctx.label("kills_idle")

    def step_killed(self, op, at, mask):
        """The operation, with the process killed at the at-th event in it. True if it was."""
        sv = self.sv
        sv.set_ctl(crashed=0, events=0, mask=mask, countdown=at)
        done = False
        try:
            self.step(op)
            done = True
        except (ServerDied, Violation, OSError) as e:
            # give the kill a moment to show
            if not self.gone():
                raise
            if not sv.get_ctl("crashed"):
                raise Violation("the server died by itself during %s: %s" % (op["op"], e))
        sv.set_ctl(countdown=0)
        if done and op["op"] != "restart" and not sv.get_ctl("crashed"):
            return False
        if sv.get_ctl("crashed"):
            self.gone()
            self.ctx.label("kills_%s_%d" % (op["op"], sv.get_ctl("crashed")))
            sv.kill()
            return True
        return False

    def gone(self):
        import time
        p = self.sv.proc
        if p is None:
            return True
        t0 = time.monotonic()
        while p.poll() is None and time.monotonic() - t0 < (5 if self.sv.get_ctl("crashed") else 0.3):
            time.sleep(0.005)
        return p.poll() is not None

    def start_killed(self, at, mask):
        """A start, with the process killed at the at-th event in it. True if it was."""
        self.sv.set_ctl(crashed=0, events=0, mask=mask)
        served = self.sv.start(kill_at=at)
        self.sv.set_ctl(countdown=0)
        if served and not self.sv.get_ctl("crashed"):
            return False
        self.gone()
        self.sv.kill()
        self.ctx.label("kills_start_%d" % self.sv.get_ctl("crashed"))
        return True

    # what is there after a start ------------------------------------------------
    def recovered(self, what="after a crash: "):
        """Compares what a fresh start shows with what must and may be there, and adopts it."""
        sv = self.sv
        for typ, known in self.names.items():
            r = sv.get("/api/suggest?type=%s&q=&max=100000" % typ)
            if r.status != 200:
                raise Violation("%ssuggest answered %s" % (what, r))
            bad = sorted(set(parse_json(r.body)) - known)
            if bad:
                raise Violation("%s%s nobody wrote: %r" % (what, typ, bad[:5]))
        ts = [t for d in (self.durable, self.alts) for p in d.values() for t in p]
        lo, hi = (min(ts) - 1, max(ts) + 1) if ts else (0, 1)
        seen = {}
        metrics = sorted(self.names["metrics"])
        for m in metrics:
            got = sv.raw(m, lo, hi, ms=self.ms)
            for tags, p in got.items():
                seen[(m, tags)] = p
        for k in sorted(set(seen) | set(self.durable), key=str):
            dur, alt, got = self.durable.get(k, {}), self.alts.get(k, {}), seen.get(k, {})
            if not dur and not alt and got:
                raise Violation("%sseries %s %s with %d points was never written" % (what, k[0], sorted(k[1]), len(got)))
            scale = dict(dur)
            scale.update({t: max(vs, key=lambda v: abs(v) if math.isfinite(v) else 0) for t, vs in alt.items()})
            same = self.close(scale)
            for t in sorted(dur):
                if t not in got:
                    raise Violation("%sseries %s %s lost time %d of a completed flush (value %r); %d of %d flushed times are back" %
                                    (what, k[0], sorted(k[1]), t, dur[t], len(set(dur) & set(got)), len(dur)))
            for t, v in got.items():
                ok = [dur[t]] if t in dur else []
                ok += alt.get(t, [])
                if not any(same(x, v) for x in ok):
                    raise Violation("%sseries %s %s at %d: %r returned, written were %r" % (what, k[0], sorted(k[1]), t, v, ok[:8]))
        # what is visible now has to stay visible until the next crash; what had to survive still has to
        self.model.d = {}
        for k, p in seen.items():
            if p:
                self.model.d[k] = dict(p)
                for t, v in p.items():
                    if t in self.durable.get(k, {}):
                        self.alts.setdefault(k, {}).setdefault(t, []).append(v)
        self.ctx.label("recoveries")
        self.ctx.label("durable_points_checked", sum(len(p) for p in self.durable.values()))
