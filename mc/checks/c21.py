"""C21: topographic diffusion moves bed only along sand flux.

Explored: (a) all pairs (bed bump in one cell, sand flux in one cell) of the grid on flat and sloping backgrounds, (b) all patterns of
two bed levels times all patterns of flux on/off over 3x2 and 2x3 patches placed in the interior, at every kind of border, next to
land and to the inlet, (c) the beds and fluxes produced by real sand routing.  Fields are supplied at the documented hook before the
stage and read at the next one.  Oracle: exchange between pairs of neighbours, in double precision.
"""
import itertools

import numpy as np

from mc import core, lib, phys, ref

ID = "C21"
MODE = "pure"
CFGS = {
    "one": dict(),                                     # one repetition
    "four": dict(N0_meters=6.0, Width=24.0),                       # four repetitions
    "ten": dict(N0_meters=10.0, Width=40.0, alpha=0.02),
    "eight": dict(N0_meters=8.0, Width=32.0, alpha=0.05),
    "wide": dict(dx=2.0, Length=24.0, Width=36.0, L0_meters=4.0, N0_meters=6.0, h0=2.0, alpha=0.3),
    "fine": dict(dx=0.5, Length=6.0, Width=9.0, L0_meters=1.0, N0_meters=1.5, h0=0.6, alpha=0.04),
    "none": dict(alpha=0.0),
    "strong": dict(alpha=1.0, C0_percent=1.0),
    "step": dict(),                                    # the time step is changed afterwards
    "bc": dict(alpha=0.2),                             # the inlet flow is changed afterwards
    "deep": dict(Length=16.0, L0_meters=4.0, N0_meters=4.0, h0=3.0, u0=0.5),
}
BOUNDS = {
    "quick": "11 configurations (1, 2, 4, 6 and 10 repetitions, coefficient 0 to 1, changed time step and inlet flow): all pairs of cells up to 2 apart on 2 backgrounds and every eleventh farther pair; all 2-level bed x flux patterns on 6-cell patches at 12 places in 4 configurations; 5 beds after real sand routing per configuration",
    "thorough": "additionally all 2-level bed x flux patterns on 3x3 patches at 12 places in 4 configurations, and the 6-cell patches in all configurations",
}
ASSUMPTIONS = ["beyond the edge of the grid the bed counts as zero without flux, as in the released model",
               "interpreted execution of the same source (NUMBA_DISABLE_JIT=1); the stage itself is not compiled"]
RULE = "states: distinct bed/flux patterns; transitions: executions of the stage compared with the reference"


def cases(tier):
    deep = tier != "quick"
    out = []
    for c in CFGS:
        for part in range(6):
            out.append(dict(kind="pairs", cfg=c, part=part))
        out.append(dict(kind="real", cfg=c))
    for c in (CFGS if deep else ("one", "four", "wide", "strong")):
        for place in range(12):
            for shape in ((3, 2), (2, 3)):
                out.append(dict(kind="patch", cfg=c, place=place, shape=list(shape)))
    if deep:
        for c in ("one", "four", "wide", "strong"):
            for place in range(12):
                for part in range(16):
                    out.append(dict(kind="patch", cfg=c, place=place, shape=[3, 3], part=part))
    return out


_cls = {}


def classes():
    if not _cls:
        M = lib.DeltaModel()

        class Stage(M):
            """the sand routing is replaced by given fields"""
            _in = None

            def route_all_sand_parcels(self):
                if not self._in:
                    super().route_all_sand_parcels()

            def route_all_mud_parcels(self):
                pass

            def hook_topo_diffusion(self):
                if self._in:
                    self.eta[:] = self._in[0]
                    self.qs[:] = self._in[1]
                self._before = (np.array(self.eta, dtype=float), np.array(self.qs, dtype=float))

            def hook_route_all_mud_parcels(self):
                self._after = (np.array(self.eta, dtype=float), np.array(self.qs, dtype=float))
        _cls["stage"] = Stage
    return _cls


def diffuse(eta, qs, fixed, mult, n):
    """every pair of neighbours exchanges mult * (sum of fluxes) * (difference in elevation)"""
    L, W = eta.shape
    q = np.zeros((L + 2, W + 2))
    q[1:-1, 1:-1] = qs
    for _ in range(n):
        e = np.zeros((L + 2, W + 2))
        e[1:-1, 1:-1] = eta
        d = np.zeros((L, W))
        for a, b in itertools.product((-1, 0, 1), repeat=2):
            if a or b:
                d += (qs + q[1 + a:L + 1 + a, 1 + b:W + 1 + b]) * (e[1 + a:L + 1 + a, 1 + b:W + 1 + b] - eta)
        d[fixed] = 0
        eta = eta + mult * d
    return eta


def setup(name):
    cfg = dict(lib.TINY, **CFGS[name])
    m = classes()["stage"](out_dir="d", **cfg)
    const = phys.constants(m, cfg)
    dt = const["dt"]
    if name == "step":
        m.time_step = dt = 77.0
    elif name == "bc":
        m.channel_flow_velocity = 2.0
        const["qs0"] *= 2
        dt = dt / 2
    n = const["N_cross"]
    fixed = (const["cell_type"] == -2)
    fixed[0, :] = True
    mult = dt / n * const["alpha"] * 0.5 / const["dx"] ** 2
    return m, const, fixed, mult, n


class Driver:
    def __init__(self, name, r, case):
        self.m, self.c, self.fixed, self.mult, self.n = setup(name)
        self.r, self.case = r, case
        self.inner = np.zeros(self.fixed.shape, bool)
        self.inner[1:-1, 1:-1] = True
        self.states = set()

    def __call__(self, eta, qs, what):
        m, r = self.m, self.r
        m._in = (eta, qs) if eta is not None else None
        m.route_sediment()
        (e0, q0), (e1, q1) = m._before, m._after
        want = diffuse(e0, q0, self.fixed, self.mult, self.n)
        scale = 1 + np.abs(e0).max() + np.abs(want).max()
        if not lib.close(e1, want, rtol=1e-5, atol=3e-6 * scale):
            r.fail("bed after diffusion: %s" % lib.where_not_close(e1, want, rtol=1e-5, atol=3e-6 * scale), dict(case=self.case, pattern=what))
        if not np.array_equal(q0, q1):
            r.fail("diffusion changed the sand flux", dict(case=self.case, pattern=what))
        if not np.array_equal(e0[self.fixed], e1[self.fixed]):
            r.fail("diffusion changed land or the first row", dict(case=self.case, pattern=what))
        if (not q0.any() or self.c["alpha"] == 0) and not np.array_equal(e0, e1):
            r.fail("the bed changed without sand flux or coefficient", dict(case=self.case, pattern=what))
        r.transitions += 1
        r.traces += 1
        self.states.add(hash((e1.tobytes(), e0.tobytes())))
        moved = np.abs(want - e0) > 0
        if moved.any():
            r.extra["with exchange"] += 1
            r.extra["moved bed away from the border"] += int((moved & self.inner).any())


def places(m, const):
    """where the patches go: interior, the four kinds of border, corners, beside land, below and in the inlet channel"""
    L, W, L0 = m.L, m.W, int(m.L0)
    a, b = int(const["inlet"][0]), int(const["inlet"][-1])
    return [(L // 2 + 1, W // 2 - 1), (L - 3, W // 2), (L0 + 2, 0), (L0 + 2, W - 3), (L - 3, 0), (L - 3, W - 3), (L0 - 1, 1), (L0 - 1, a - 1),
            (L0, b), (0, a), (0, b - 1), (1, a)]


def run_case(case):
    r = core.Result()
    d = Driver(case["cfg"], r, case)
    m, const = d.m, d.c
    L, W = m.L, m.W
    q = const["qs0"]
    if case["kind"] == "real":
        for k, kind in enumerate(("slack", "shoal", "swift", "drybar", "swirl")):
            phys.install(m, phys.craft(m, const, kind, seed=k))
            with lib.Draws():
                d(None, None, kind)
    elif case["kind"] == "pairs":
        rr, cc = np.mgrid[0:L, 0:W]
        back = [np.full((L, W), -2.0), -1.0 - 0.125 * rr + 0.0625 * cc]
        cells = [(i, j) for i in range(L) for j in range(W)]
        for x in cells[case["part"]::6]:
            for y in cells:
                dist = max(abs(x[0] - y[0]), abs(x[1] - y[1]))
                if dist > 2 and (x[0] * 7 + x[1] + y[0] * 5 + y[1]) % 11:
                    continue                                # out of each other's reach: every eleventh pair
                for bi in (0, 1) if dist <= 2 else ((x[0] + y[1]) % 2,):
                    eta = back[bi].copy()
                    eta[x] += 0.5
                    qs = np.zeros((L, W))
                    qs[y] = q
                    d(eta, qs, dict(bump=x, flux=y, background=bi))
        d(back[1], np.zeros((L, W)), "no flux")
        d(back[1], np.full((L, W), q), "flux everywhere")
    else:
        h, w = case["shape"]
        i0, j0 = places(m, const)[case["place"]]
        i0, j0 = min(i0, L - h), min(max(j0, 0), W - w)
        n = h * w
        pats = list(itertools.product((0, 1), repeat=n))
        mine = pats if "part" not in case else pats[case["part"]::16]
        base = np.full((L, W), -1.0)
        for e in mine:
            for s in pats:
                eta = base.copy()
                eta[i0:i0 + h, j0:j0 + w] += 0.5 * np.array(e, dtype=float).reshape(h, w)
                qs = np.zeros((L, W))
                qs[i0:i0 + h, j0:j0 + w] = 2 * q * np.array(s, dtype=float).reshape(h, w)
                d(eta, qs, dict(bed=e, flux=s, at=(i0, j0)))
                if len(r.violations) > 10:
                    break
    r.states = len(d.states)
    r.outcomes = {core.digest(s) for s in list(d.states)[:2000]}
    r.sample = dict(case=case, patterns=len(d.states))
    lib.dispose(m)
    return r
