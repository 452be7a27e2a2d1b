"""C18: bed surface composition follows deposits and erosion.

Explored (a): every history of (bed change, sand deposit, mud deposit) of one cell over the alphabet up to the length bound; the
cells of one real model carry different histories side by side, the documented hook after sediment routing supplies the bed change
and the deposits of the step.  (b): all executions of real steps (interpreted code, every draw controlled) within the deviation
bound, where bed change and deposits are those of the routing itself.  Oracle: one automaton per cell.
"""
import itertools

import numpy as np

from mc import core, lib, phys

ID = "C18"
MODE = "pure"
DETA = (-0.75, -0.5, -0.25, 0.0, 0.25)
SAND = (0.0, 1e-8, 0.25)
MUD = (0.0, 5e-7, 2e-6, 0.75)
SYM = list(itertools.product(DETA, SAND, MUD))
SMALL = list(itertools.product((-0.75, -0.25, 0.0, 0.25), (0.0, 0.25), (0.0, 5e-7, 0.75)))
BOUNDS = {
    "quick": "all histories of 3 steps over 60 symbols (5 bed changes x 3 sand x 4 mud deposits) for 3 layer thicknesses, of 4 steps over 24 symbols with a change of thickness or boundary value in between; all executions of 1-2 real steps with at most 1 non-preferred draw in 12 configurations from 5 states",
    "thorough": "3 steps over 60 symbols for 5 thicknesses, 5 steps over 24 symbols; all executions of 2 real steps with at most 1 non-preferred draw and of 1 step with at most 2, in 12 configurations from 5 states",
}
ASSUMPTIONS = ["a deposit of at most 1e-6 cubic metres of mud and no sand is no deposit",
               "eroded: the bed is lower after the step than before it, for whatever reason",
               "interpreted execution of the same source (NUMBA_DISABLE_JIT=1)"]
RULE = "states: distinct (cell composition) automaton states reached; transitions: cell steps checked"
CHANGES = [None, ("thick", 0.0), ("thick", 1.0), ("bc", 0.9)]
KINDS = ["slack", "shoal", "swift", "drybar", "calmswirl"]
FULL = [dict(), dict(f_bedload=0.75), dict(f_bedload=0.25, active_layer_thickness=0.0), dict(active_layer_thickness=0.01, sand_frac_bc=0.8),
        dict(toggle_subsidence=True, subsidence_rate=1e-3, start_subsidence=0), dict(u0=3.0, active_layer_thickness=0.02),
        dict(C0_percent=1.0), dict(sand_frac_bc=0.5, f_bedload=0.51), dict(SLR=1e-4), dict(alpha=0.9, active_layer_thickness=1e-4),
        dict(h0=3.0, u0=0.5), dict(u0=2.0, f_bedload=0.75, alpha=0.0)]


def cases(tier):
    deep = tier != "quick"
    out = []
    for th in (0.5, 0.0, None) + ((0.25, 3.0) if deep else ()):
        for first in range(len(SYM)):
            out.append(dict(kind="cells", sym="full", head=[first], n=3, thick=th, bc=0.3, change=None))
    n = 5 if deep else 4
    for ch in range(len(CHANGES)) if deep else (0, 2, 3):
        for head in itertools.product(range(len(SMALL)), repeat=n - 3):
            out.append(dict(kind="cells", sym="small", head=list(head), n=n, thick=0.5, bc=0.3, change=ch))
    for i in range(len(FULL)):
        for j, k in enumerate(KINDS):
            out.append(dict(kind="full", cfg=i, state=k, bound=1, steps=2 if deep or (i + j) % 2 else 1))
            if deep:
                out.append(dict(kind="full", cfg=i, state=k, bound=2, steps=1))
    return out


_cls = {}


def cell_class():
    if "cell" not in _cls:
        class Cells(lib.DeltaModel()):
            """the bed change and deposits of every step are given"""
            _given = None

            def route_water(self):
                pass

            def route_sediment(self):
                pass

            def hook_after_route_sediment(self):
                if self._given is not None:
                    de, s, m = self._given
                    self.eta[:] = self.eta + de.astype(self.eta.dtype)
                    self.Vp_dep_sand[:] = s
                    self.Vp_dep_mud[:] = m
        _cls["cell"] = Cells

        class Watch(lib.DeltaModel()):
            def hook_solve_water_and_sediment_timestep(self):
                self._w0 = dict(eta=np.array(self.eta, dtype=float), sf=np.array(self.sand_frac, dtype=float), al=np.array(self.active_layer, dtype=float))

            def hook_compute_sand_frac(self):
                self._w1 = dict(eta=np.array(self.eta, dtype=float), s=np.array(self.Vp_dep_sand, dtype=float), m=np.array(self.Vp_dep_mud, dtype=float))
        _cls["watch"] = Watch
    return _cls


def expected(sf, al, eta0, eta1, s, m, thick, bc):
    sf, al = sf.copy(), al.copy()
    dep = (s > 0) | (m > 1e-6)
    below = (eta1 < eta0 - thick)
    low = eta1 < eta0
    sf = np.where(low & below, bc, np.where(low, al, sf))
    mix = np.where(dep, s / np.where(dep, s + m, 1), 0)
    sf = np.where(dep, mix, sf)
    al = np.where(dep, mix, al)
    return sf, al, dep, low & below, low


def compare(r, what, got, want, mask, detail):
    got = np.asarray(got, dtype=float)
    bad = ~np.isclose(got, want, rtol=1e-6, atol=1e-9) & mask
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        r.fail("%s in %d cell(s), first %s: got %r expected %r" % (what, bad.sum(), list(map(int, i)), float(got[i]), float(want[i])), detail(i))


def run_cells(case, r):
    sym = SYM if case["sym"] == "full" else SMALL
    free = case["n"] - len(case["head"])
    hist = [tuple(case["head"]) + t for t in itertools.product(range(len(sym)), repeat=free)]
    W = 80
    rows = (len(hist) + W - 1) // W
    cfg = dict(lib.TINY, Length=float(rows + 3), Width=float(W), active_layer_thickness=case["thick"], sand_frac_bc=case["bc"])
    m = cell_class()["cell"](out_dir="c", **cfg)
    L = m.L
    idx = np.full((L, W), 0)
    use = np.zeros((L, W), bool)
    flat = np.arange(len(hist))
    idx[3 + flat // W, flat % W] = flat
    use[3 + flat // W, flat % W] = True
    table = np.array(hist)
    vals = np.array(sym)
    thick = m.h0 / 2 if case["thick"] is None else case["thick"]
    bc = case["bc"]
    sf = np.array(m.sand_frac, dtype=float)
    al = np.array(m.active_layer, dtype=float)
    if not (np.allclose(sf, bc) and np.allclose(al, bc)):
        r.fail("initial composition is not the boundary value")
    m.eta[3:] = -8.0
    states = set()
    for step in range(case["n"]):
        if case["change"] and step == case["n"] - 1:
            what, v = CHANGES[case["change"]]
            if what == "thick":
                m.active_layer_thickness = thick = v
            else:
                m.sand_frac_bc = bc = v
        s = table[:, step]
        g = [np.where(use, vals[s][:, k][idx], 0.0) for k in range(3)]
        m._given = g
        e0 = np.array(m.eta, dtype=float)
        m.update()
        e1 = np.array(m.eta, dtype=float)
        got0 = e0 + g[0]
        if not np.allclose(np.where(use, e1, 0), np.where(use, got0, 0), atol=1e-6):
            r.fail("the bed of cells without flow changed after sediment routing")
        sf, al, dep, below, low = expected(sf, al, e0, np.where(use, got0, e1), g[1], g[2], thick, bc)

        def detail(i):
            return dict(case=case, history=[sym[k] for k in hist[idx[i]][:step + 1]])
        compare(r, "sand fraction after step %d" % (step + 1), m.sand_frac, sf, use, detail)
        compare(r, "active layer after step %d" % (step + 1), m.active_layer, al, use, detail)
        v = np.asarray(m.sand_frac, dtype=float)[use]
        if not (((v >= 0) & (v <= 1)) | (v == np.float32(bc))).all():
            r.fail("sand fraction outside [0, 1]")
        r.transitions += int(use.sum())
        states.update(zip(np.round(sf[use], 6).tolist(), np.round(al[use], 6).tolist()))
        r.extra["deposits"] += int((dep & use).sum())
        r.extra["below the layer"] += int((below & use & ~dep).sum())
        r.extra["within the layer"] += int((low & ~below & use & ~dep).sum())
    r.traces = len(hist)
    r.states = len(states)
    r.outcomes = {core.digest(s) for s in states}
    r.sample = dict(case=case, histories=len(hist))
    lib.dispose(m)


def run_full(case, r):
    cfg = dict(lib.TINY, Np_water=2, Np_sed=4, stepmax=8)
    cfg.update(FULL[case["cfg"]])
    seen = set()

    def execute(prefix):
        before = len(r.violations)
        m = cell_class()["watch"](out_dir="f", **cfg)
        phys.install(m, phys.craft(m, phys.constants(m, cfg), case["state"], seed=case["cfg"]))
        d = lib.Draws(prefix)
        with d:
            for step in range(case["steps"]):
                m.update()
                w0, w1 = m._w0, m._w1
                sf, al, dep, below, low = expected(w0["sf"], w0["al"], w0["eta"], w1["eta"], w1["s"], w1["m"], float(m.active_layer_thickness), float(m.sand_frac_bc))
                near = np.abs(w1["eta"] - w0["eta"] + float(m.active_layer_thickness)) < 1e-5
                if float(m.active_layer_thickness) == 0:
                    near[:] = False
                ok = ~near
                det = lambda i: dict(case=case, prefix=prefix, step=step)
                compare(r, "sand fraction after real step %d" % (step + 1), m.sand_frac, sf, ok, det)
                compare(r, "active layer after real step %d" % (step + 1), m.active_layer, al, ok, det)
                r.transitions += sf.size
                r.extra["deposits"] += int(dep.sum())
                r.extra["below the layer"] += int((below & ~dep).sum())
                r.extra["within the layer"] += int((low & ~below & ~dep).sum())
                seen.add(core.digest(np.round(sf, 6)))
        lib.dispose(m)
        r.traces += 1
        if len(r.violations) > before + 3 or len(r.violations) > 8:
            d.points = d.points[:len(prefix)]
        return d

    lib.explore(execute, case["bound"])
    r.states = len(seen)
    r.outcomes = seen
    r.sample = dict(case=case, compositions=len(seen))


def run_case(case):
    r = core.Result()
    (run_cells if case["kind"] == "cells" else run_full)(case, r)
    return r
