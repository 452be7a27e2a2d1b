"""C16: sediment volume is conserved by every parcel.

Explored: all direction choices of sand and mud parcels within the deviation bound (interpreted code, every draw controlled), from
crafted states in every regime.  A monitor observes the fields at every draw, i.e. after every single visit, and keeps the books
of each parcel independently of the rules that decide how much settles or erodes.
"""
import math

import numpy as np

from mc import core, lib, phys, ref
from mc.checks import c17

ID = "C16"
MODE = "pure"
BOUNDS = {
    "quick": "39 state/configuration scenarios of C17: all executions of 2+2 parcels (up to 18 steps) with at most 1 non-preferred choice, 1+1 parcels with at most 2 (up to 5 steps); 60 (number of parcels, bedload fraction) pairs",
    "thorough": "the same with 6 crafted states per scenario and 2 non-preferred choices for 1+1 parcels of full length",
}
ASSUMPTIONS = ["interpreted execution of the same source (NUMBA_DISABLE_JIT=1); C17 replays the same kind of executions compiled",
               "a parcel ends at the open boundary or at its step limit (C17)"]
RULE = "states: distinct final beds; transitions: single visits of a parcel to a cell, each checked; traces: executions"
SPLIT = [(n, f) for n in (2, 3, 4, 5, 7, 8, 10, 11, 20, 33) for f in (0.5, 0.3, 0.29, 0.75, 0.62, 0.66)]


def cases(tier):
    deep = tier != "quick"
    out = []
    for sc in c17.SCEN:
        out.append(dict(kind="walks", sc=list(sc), bound=1))
        out.append(dict(kind="single", sc=list(sc), bound=2, one=1, steps=None if deep else 5))
        if deep:
            for extra in range(5):
                out.append(dict(kind="walks", sc=[sc[0], sc[1], sc[2] + 20 + 7 * extra, sc[3]], bound=1))
    for n, f in SPLIT:
        if int(n * f) and int(n * (1 - f)):
            out.append(dict(kind="split", n=n, f=f, sc=["base", "slack", 1, 0], bound=0))
    return out


class Books(lib.Draws):
    """Draws under control; at every draw the last visit is checked."""

    def __init__(self, prefix, m, const, r):
        super().__init__(prefix)
        self.m, self.c, self.r = m, const, r
        self.kind = None

    def arr(self, name):
        m = self.m
        router = getattr(m, "_sr" if self.kind == "sand" else "_mr", None)
        v = getattr(router, name, None) if router is not None else None
        return np.array(v if v is not None else getattr(m, name), dtype=float)

    lift = None

    def begin(self, kind):
        if self.lift is not None:
            phys.lift(self.m, self.lift)
        self.kind = kind
        self.todo = []               # start cells not yet routed
        self.pos = None
        self.V = 0.0
        self.n = 0
        self.visits = 0
        m = self.m
        self.eta0 = np.array(m.eta, dtype=float)
        self.qs_exp = np.array(m.qs, dtype=float)
        self.dep0 = {k: np.array(getattr(m, "Vp_dep_" + k), dtype=float) for k in ("sand", "mud")}
        self.eta = self.eta0.copy()
        self.net = 0.0
        self.pending = None
        self.starts = 0
        self.stage = np.array(m.stage, dtype=float)

    def half(self):
        return 1.0 / (2.0 * self.c["dt"] * self.c["dx"])

    def settle(self, final=False):
        """books of the visit made since the last draw"""
        if self.pending is None:
            return
        c, r = self.c, self.r
        cell = self.pending
        self.pending = None
        area = c["dx"] ** 2
        now = self.arr("eta") if not final else np.array(self.m.eta, dtype=float)
        d = (now - self.eta) * area
        tol = 4e-7 * (1 + np.abs(now).max()) * area
        other = d.copy()
        other[cell] = 0
        if np.abs(other).max() > tol:
            r.fail("a visit of %s to %s changed the bed of another cell" % (self.kind, cell))
        dV = d[cell]
        water = self.stage[cell] - self.eta[cell]
        if abs(dV) > abs(water) / 4 * area + tol:
            r.fail("a single visit of %s changed cell %s by %g, more than a quarter of the local water volume %g" % (self.kind, cell, dV, water * area))
        if dV > tol and now[cell] > self.stage[cell] + 1e-5:
            r.fail("%s deposited above the water surface at %s" % (self.kind, cell))
        if dV > self.V + 2e-6 * c["Vp_sed"] + tol:
            r.fail("a %s parcel carrying %g deposited %g" % (self.kind, self.V, dV))
        dep = {k: self.arr("Vp_dep_" + k) if not final else np.array(getattr(self.m, "Vp_dep_" + k), dtype=float) for k in ("sand", "mud")}
        for k in ("sand", "mud"):
            want = self.dep0[k].copy()
            if k == self.kind:
                want[cell] += max(dV, 0)
            bad = np.abs(dep[k] - want) > 2e-6 * np.abs(want) + 2 * tol
            if bad.any():
                r.fail("recorded %s deposit after a visit of %s to %s with bed change %g: %s" % (
                    k, self.kind, cell, dV, lib.where_not_close(dep[k], want, rtol=2e-6, atol=2 * tol)))
        self.dep0 = dep
        if abs(dV) > tol:
            self.r.extra["deposits" if dV > 0 else "erosions"] += 1
        else:
            dV = 0.0 if abs(dV) < tol / 4 else dV
        self.V -= dV
        self.net += dV
        self.eta = now
        self.visits += 1
        r.transitions += 1
        if self.kind == "sand":
            qs = self.arr("qs") if not final else np.array(self.m.qs, dtype=float)
            if not lib.close(qs, self.qs_exp, rtol=5e-5, atol=5e-6 * c["qs0"]):
                r.fail("sand flux does not carry what the parcels carry: %s" % lib.where_not_close(qs, self.qs_exp, rtol=5e-5, atol=5e-6 * c["qs0"]))
                self.qs_exp = qs

    def parcel_done(self):
        return self.pos is not None and (self.c["cell_type"][self.pos] == -1 or self.n >= self.c["stepmax"])

    def pick(self, prob):
        if self.kind is None:
            return super().pick(prob)
        if len(prob) == len(self.c["inlet"]) and len(prob) != 9:
            k = super().pick(prob)
            self.todo.append((0, int(self.c["inlet"][int(k)])))
            self.starts += 1
            return k
        new = self.pos is None or self.parcel_done()
        if new and self.todo and self.kind == "sand":       # the next parcel has already entered
            self.qs_exp[self.todo[0]] += float(self.c["Vp_sed"]) * self.half()
        self.settle()
        if new:
            if not self.todo:
                self.r.fail("a %s parcel moves on beyond the open boundary or its step limit, or an extra parcel is routed" % self.kind)
                return super().pick(prob)
            self.pos = self.todo.pop(0)
            self.n = 0
            self.V = float(self.c["Vp_sed"])
        k = int(super().pick(prob))
        new = (self.pos[0] + int(ref.DI[k]), self.pos[1] + int(ref.DJ[k]))
        L, W = self.eta.shape
        if not (0 <= new[0] < L and 0 <= new[1] < W):
            self.r.fail("a %s parcel leaves the grid at %s" % (self.kind, self.pos))
            return k
        if self.kind == "sand":
            self.qs_exp[self.pos] += self.V * self.half()
            self.qs_exp[new] += self.V * self.half()
        self.pos = new
        self.n += 1
        self.pending = new
        return k

    def finish(self):
        self.settle(final=True)
        r, c = self.r, self.c
        share = c["f_bedload"] if self.kind == "sand" else 1 - c["f_bedload"]
        x = c["Np_sed"] * share
        if self.starts not in (int(math.floor(x - 1e-9)), int(math.floor(x + 1e-9))):
            r.fail("%d %s parcels for %d parcels and bedload fraction %g" % (self.starts, self.kind, c["Np_sed"], c["f_bedload"]))
        if self.todo or not self.parcel_done():
            r.fail("not every %s parcel was routed to its end" % self.kind)
        area = c["dx"] ** 2
        total = (np.array(self.m.eta, dtype=float) - self.eta0).sum() * area
        if abs(total - self.net) > 1e-5 * (1 + abs(self.net)):
            r.fail("the bed change of routing %s, %g, is not the net deposition %g" % (self.kind, total, self.net))
        self.kind = None

    # hooks
    def hook_route_all_sand_parcels(self):
        self.begin("sand")

    def hook_topo_diffusion(self):
        self.finish()

    def hook_route_all_mud_parcels(self):
        self.begin("mud")


def run_case(case):
    r = core.Result()
    m, const, fields = c17.prepare(dict(case, mode="mid"))
    if case["kind"] == "split":
        lib.dispose(m)
        cfg = dict(lib.TINY, **dict(c17.CFG["base"], Np_sed=case["n"], f_bedload=case["f"]))
        m = phys.build(cfg)
        const = phys.constants(m, cfg)
    seen = set()

    def execute(prefix):
        before = len(r.violations)
        phys.install(m, fields)
        d = Books(prefix, m, const, r)
        d.lift = 1000 + case["sc"][2] if "lifted" in case["sc"][1] else None
        m._mon = d
        with d:
            m.route_sediment()
            d.finish()
        m._mon = None
        r.traces += 1
        seen.add(core.digest(np.round(np.asarray(m.eta, dtype=float), 5)))
        if len(r.violations) > before:
            r.violations[before:] = [(v[0], dict(case=case, prefix=[p[1] for p in d.points])) for v in r.violations[before:]]
        if len(r.violations) >= 5:
            d.points = d.points[:len(prefix)]
        return d

    lib.explore(execute, case["bound"])
    r.states = len(seen)
    r.outcomes = seen
    r.sample = dict(case=case, beds=len(seen))
    lib.dispose(m)
    return r
