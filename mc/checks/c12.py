"""C12: the initial domain matches its configuration for every geometry.

Explored: every grid size, inlet length and inlet width within the bound, and depth / slope / velocity / cell-size
alphabets; every cell of the constructed model is compared with an independent specification.
"""
import itertools
import math
import shutil

import numpy as np

from mc import core, lib

ID = "C12"
MODE = "pure"
BOUNDS = {
    "quick": "grids of 3-16 x 5-26 cells (and some up to 40 x 80), inlet lengths 0-6 cells, inlet widths 1-8 cells; on 14 geometries all combinations of 5 cell sizes, 3 depths, 3 basin depths, 3 slopes, 3 velocities",
    "thorough": "grids of 3-24 x 5-40 cells, inlet lengths 0-8, widths 1-12; value combinations on 40 geometries",
}
ASSUMPTIONS = ["lengths are not within rounding of half a cell"]
LAND, CHANNEL, OCEAN, EDGE = -2, 1, 0, -1


def cases(tier):
    out = []
    Ls, Ws = (range(3, 17), range(5, 27)) if tier == "quick" else (range(3, 25), range(5, 41))
    for L in Ls:
        for W in Ws:
            out.append(dict(kind="geo", L=L, W=W, L0=[0.0, 1.0, 2.3, 3.0, 6.0] + ([8.0] if tier != "quick" else []), N0=[1.0, 3.0, 4.2, 5.0, 8.0] + ([12.0] if tier != "quick" else [])))
    for L, W in ((40, 80), (25, 60), (40, 12), (10, 80), (17, 33), (31, 64)):
        out.append(dict(kind="geo", L=L, W=W, L0=[1.0, 3.0, 7.0], N0=[3.0, 5.0, 6.0, 11.0, 30.0]))
    geos = [(10, 12, 2, 3), (12, 20, 3, 4), (6, 9, 1, 3), (14, 25, 3, 6), (16, 22, 4, 5), (8, 30, 2, 7), (5, 7, 1, 3)]
    if tier != "quick":
        geos += [(L, W, L0, N0) for L in (7, 11, 20) for W in (11, 16, 28) for L0, N0 in ((1, 3), (3, 5))]
    for g in geos:
        for dx in (1.0, 0.5, 50, 7.3, 1.0 / 3):
            out.append(dict(kind="val", geo=list(g), dx=dx))
    return out


def spec(L, W, L0, N0, dx, h0, hb, S0, u0, bc):
    ctr = math.floor(W / 2) - 1
    if ctr <= 1:
        ctr = math.floor(W / 2)
    left = ctr - int(round(N0 / 2)) + 1
    R = min(L - 5, W / 2 - 5)
    t = np.zeros((L, W), int)
    for i in range(L):
        for j in range(W):
            if i < L0:
                t[i, j] = CHANNEL if left <= j < left + N0 else LAND
            elif i == L - 1 or j == 0 or j == W - 1 or math.hypot(i - 3, j - ctr) >= R:
                t[i, j] = EDGE
            else:
                t[i, j] = OCEAN
    stage = np.zeros((L, W))
    for i in range(L0):
        stage[i] = (L0 - 1 - i) * dx * S0
    sea = np.zeros((L, W), bool)
    sea[L0:] = True
    ch = t == CHANNEL
    depth = np.where(sea, hb, np.where(ch, h0, 0.0))
    qx = np.where(ch, u0 * h0, np.where(sea, u0 * h0 / 5, 0.0))
    ux = np.where(depth > 0, qx / np.where(depth > 0, depth, 1), 0.0)
    z = np.zeros((L, W))
    return dict(cell_type=t, stage=stage, depth=depth, eta=stage - depth, qx=qx, qy=z, qw=qx, ux=ux, uy=z, uw=ux, qs=z,
                sand_frac=z + bc, active_layer=z + bc), left, ctr


def check(res, kw, L, W, L0, N0, ctx):
    shutil.rmtree("o", ignore_errors=True)
    m = lib.DeltaModel()(out_dir="o", **kw)
    res.transitions += 1
    h0 = kw["h0"]
    hb = kw.get("hb")
    hb = h0 if hb is None else hb
    e, left, ctr = spec(L, W, L0, N0, float(kw["dx"]), h0, hb, kw["S0"], kw["u0"], kw.get("sand_frac_bc", 0))
    try:
        if (m.L, m.W, m.L0, m.N0) != (L, W, L0, N0):
            res.fail("grid or inlet size in cells does not match the configuration", dict(ctx, got=[int(m.L), int(m.W), int(m.L0), int(m.N0)], want=[L, W, L0, N0]))
            return
        t = np.asarray(m.cell_type)
        if t.shape != (L, W):
            res.fail("cell types do not cover the grid", dict(ctx, shape=t.shape))
            return
        # partition and boundedness, stated on the result itself
        if not np.isin(t, (LAND, CHANNEL, OCEAN, EDGE)).all():
            res.fail("a cell is neither land, inlet, ocean nor open boundary", ctx)
        rows = np.unique(np.where(t == CHANNEL)[0])
        if rows.tolist() != list(range(L0)) or np.unique(np.where(t == LAND)[0]).tolist() != list(range(L0)):
            res.fail("land and inlet do not cover the same rows", dict(ctx, rows=rows.tolist()))
        for i in range(L0):
            cols = np.where(t[i] == CHANNEL)[0]
            if len(cols) != N0 or (N0 > 1 and not (np.diff(cols) == 1).all()) or cols[0] != left:
                res.fail("the inlet is not a straight contiguous channel of the configured width at the centre", dict(ctx, row=i, cols=cols.tolist(), want=[left, left + N0 - 1]))
                break
        inner = (t == OCEAN) | (t == CHANNEL)
        if inner[-1].any() or inner[:, 0].any() or inner[:, -1].any() or (t[0] == OCEAN).any():
            res.fail("a cell from which parcels continue lies on the rim of the grid", ctx)
        if hasattr(m, "inlet") and sorted(np.asarray(m.inlet).tolist()) != list(range(left, left + N0)):
            res.fail("the inlet columns do not match the inlet cells", dict(ctx, got=np.asarray(m.inlet).tolist()))
        for k, w in e.items():
            g = np.asarray(getattr(m, k))
            if not (np.array_equal(g, w) if k == "cell_type" else lib.close(g, w, rtol=3e-6, atol=1e-9)):
                res.fail("initial %s does not match the configuration" % k, dict(ctx, where=lib.where_not_close(g, w, 3e-6, 1e-9)))
                break
        res.traces += 1
        res.seen([t, float(m.eta.sum()), float(m.uw.sum())])
        if ctx.get("step"):
            m.update()
    finally:
        lib.dispose(m)


def run_case(case):
    res = core.Result()
    n = 0
    if case["kind"] == "geo":
        L, W = case["L"], case["W"]
        for a, b in itertools.product(case["L0"], case["N0"]):
            # lengths need not be multiples of the cell size
            kw = dict(lib.TINY, Length=L + 0.3, Width=W - 0.2, dx=1.0, L0_meters=a, N0_meters=b)
            L0 = max(1, min(int(round(a)), L // 4))
            N0 = max(3, min(int(round(b)), W // 4))
            check(res, kw, L, W, L0, N0, dict(L=L, W=W, L0_meters=a, N0_meters=b))
            n += 1
            if res.violations:
                break
    else:
        L, W, L0, N0 = case["geo"]
        dx = case["dx"]
        for h0, hb, S0, u0 in itertools.product((0.4, 1.0, 5), (None, 0, 0.25, 7.5), (0.0, 0.0002, 0.01), (0.5, 1, 2.2)):
            kw = dict(lib.TINY, Length=L * dx, Width=W * dx, dx=dx, L0_meters=L0 * dx, N0_meters=N0 * dx, h0=h0, hb=hb, S0=S0, u0=u0, sand_frac_bc=0.25 if u0 == 1 else 0)
            check(res, kw, L, W, min(L0, L // 4), max(3, min(N0, W // 4)), dict(geometry=case["geo"], dx=dx, h0=h0, hb=hb, S0=S0, u0=u0))
            n += 1
            if res.violations:
                break
    res.states = n
    res.sample = case
    return res
