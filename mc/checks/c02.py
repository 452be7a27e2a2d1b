"""C02: every record in the output file is the state of the model when it was saved.

Explored: every subset of the nine grid switches x both file layouts x user-added variables on/off x
stop/resume history, with boundary conditions changing during the run.  Oracle: the state captured by a
documented hook immediately before each save.
"""
import itertools
import os

import numpy as np

from mc import core, lib

ID = "C02"
MODE = "jit"
GR = ["eta", "stage", "depth", "discharge", "velocity", "sedflux", "sandfrac"]
ATTR = dict(eta="eta", stage="stage", depth="depth", discharge="qw", velocity="uw", sedflux="qs", sandfrac="sand_frac",
            discharge_x="qx", discharge_y="qy", velocity_x="ux", velocity_y="uy", actlay="active_layer", bed64="eta")
UNITS = dict(eta="meters", stage="meters", depth="meters", discharge="cubic meters per second", velocity="meters per second",
             sedflux="cubic meters per second", sandfrac="fraction", discharge_x="cubic meters per second",
             discharge_y="cubic meters per second", velocity_x="meters per second", velocity_y="meters per second",
             actlay="fraction", bed64="m")
TV = ["H_SL", "f_bedload", "C0_percent", "u0"]
MUNITS = dict(L0="cells", N0="cells", CTR="cells", dx="meters", h0="meters", hb="meters", cell_type="type", start_subsidence="seconds",
              sigma="meters per timestep", H_SL="meters", f_bedload="fraction", C0_percent="percent", u0="meters per second", parcels="parcels",
              stepper="steps")
BOUNDS = {
    "quick": "all 512 subsets of grid switches x 2 layouts (a third of them on a second, subsiding domain) x user variables on/off x histories {uninterrupted, stopped+resumed at 1, at 1 and 2}; 3 steps; cadence 1 or 2 steps",
    "thorough": "as quick with 6 steps, cadences 1-3, histories with every pair of stop points, two geometries",
}
ASSUMPTIONS = ["user-added grids are written when at least one standard grid is selected",
               "single precision file variables: values are compared after rounding to the file's type"]


def cases(tier):
    out = []
    hists = [(), (1,), (1, 2)] if tier == "quick" else [()] + [h for k in (1, 2) for h in itertools.combinations(range(0, 5), k)]
    n = 3 if tier == "quick" else 6
    for mask in range(512):
        for legacy in (False, True):
            out.append(dict(mask=mask, legacy=legacy, hists=[list(h) for h in hists], n=n,
                            geo=[["plain", "wide"][mask % 3 == 1]] if tier == "quick" else ["plain", "wide"],
                            cad=[1 + (mask % 2)] if tier == "quick" else [1, 2, 3]))
    return out


def warm():
    M = lib.DeltaModel()
    m = M(out_dir="w", **dict(lib.TINY, save_eta_grids=True, save_checkpoint=True, save_dt=100))
    m.update()
    m.finalize()
    lib.dispose(m)


GEO = {"plain": dict(Length=20.5, Width=24.9, dx=2.0, C0_percent=0.07, L0_meters=4.0, N0_meters=6.0, H_SL=0.1, SLR=1e-5, h0=1.0, hb=1.5),
       "wide": dict(Length=14.0, Width=26.0, dx=1.0, L0_meters=1.0, N0_meters=5.0, SLR=2e-5, toggle_subsidence=True,
                    subsidence_rate=1e-6, start_subsidence=500)}


def make(M, custom):
    class Probe(M):
        def hook_init_output_file(self):
            if custom:
                c = self._netcdf_coords
                self._save_var_list["actlay"] = ["active_layer", "fraction", "f4", c]
                self._save_var_list["bed64"] = ["eta", "m", "f8", c]
                self._save_var_list["meta"]["parcels"] = ["Np_water", "parcels", "i8", ()]
                self._save_var_list["meta"]["stepper"] = [None, "steps", "f4", (c[0])]

        @property
        def stepper(self):
            return 10.0 * self.time_iter + 0.5

        def hook_output_data(self):
            self._mc = dict({a: np.array(getattr(self, a)) for a in set(ATTR.values())}, time=float(self.time),
                            stepper=self.stepper, **{k: float(getattr(self, k)) for k in TV})
    return Probe


def config(case, geo, cad):
    kw = dict(lib.TINY, **GEO[geo])
    for i, g in enumerate(GR):
        kw["save_%s_grids" % g] = bool(case["mask"] >> i & 1)
    kw["save_discharge_components"] = bool(case["mask"] >> 7 & 1)
    kw["save_velocity_components"] = bool(case["mask"] >> 8 & 1)
    kw["legacy_netcdf"] = case["legacy"]
    kw["save_metadata"] = bool(case["mask"] == 0)
    kw["save_checkpoint"] = True
    # dt = 0.1 * N0 * dx / (u0 * C0)
    n0 = round(kw["N0_meters"] / kw["dx"])
    dt = 0.1 * n0 * kw["dx"] / (kw["C0_percent"] / 100)
    kw["save_dt"] = int(cad * dt * 0.97)
    kw["checkpoint_dt"] = int(dt * 0.97)
    return kw, dt


def run_case(case):
    res = core.Result()
    M0 = lib.DeltaModel()
    states = set()
    k = 0
    for geo, cad, hist in itertools.product(case["geo"], case["cad"], case["hists"]):
        for custom in ((False, True) if case["mask"] else (False,)):
            k += 1
            one(res, M0, case, geo, cad, hist, custom, "o%d" % k, states)
            if res.violations:
                return res
    res.states = len(states)
    res.outcomes = states
    res.sample = case
    return res


def one(res, M0, case, geo, cad, hist, custom, d, states):
    M = make(M0, custom)
    kw, dt = config(case, geo, cad)
    want = []
    ctx = dict(mask=case["mask"], legacy=case["legacy"], geo=geo, cadence=cad, stops=list(hist), custom=custom)
    m = M(out_dir=d, **kw)
    fixed = dict(L0=m.L0, N0=m.N0, CTR=m.CTR, dx=m.dx, h0=m.h0, hb=m.hb, cell_type=m.cell_type.copy())
    if kw.get("toggle_subsidence"):
        fixed["sigma"] = m.sigma.copy()
        fixed["start_subsidence"] = m.start_subsidence
    if custom:
        fixed["parcels"] = kw["Np_water"]
    want.append(m._mc)
    since = 0.0
    for step in range(1, case["n"] + 1):
        if step - 1 in hist:
            m.finalize()
            lib.dispose(m)
            m = M(out_dir=d, **dict(kw, resume_checkpoint=True))
        if step == 2:
            m.bedload_fraction = 0.25
        if step == 3 and not hist:
            m.channel_flow_velocity = 1.1
            m.influx_sediment_concentration = 0.0012
        m.update()
        since += m.dt
        res.transitions += 1
        if since >= kw["save_dt"]:
            want.append(m._mc)
            since = 0.0
    L, W = m.L, m.W
    m.finalize()
    lib.dispose(m)
    got = lib.read_nc(os.path.join(d, "pyDeltaRCM_output.nc"), copy=False)
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    res.traces += 1
    dn = ("total_time", "length", "width") if case["legacy"] else ("time", "x", "y")
    names = [g for i, g in enumerate(GR) if case["mask"] >> i & 1]
    if case["mask"] >> 7 & 1:
        names += ["discharge_x", "discharge_y"]
    if case["mask"] >> 8 & 1:
        names += ["velocity_x", "velocity_y"]
    if custom:
        names += ["actlay", "bed64"]
    tv = TV + (["stepper"] if custom else [])

    def bad(msg, **kwd):
        res.fail(msg, dict(ctx, **kwd))
    if set(got["vars"]) != set(names) | {"time", "x", "y"}:
        return bad("the output file does not hold the selected variables", got=sorted(got["vars"]), want=sorted(names))
    if set(got["meta"]) != set(fixed) | set(tv):
        return bad("the output file does not hold the expected metadata", got=sorted(got["meta"]), want=sorted(set(fixed) | set(tv)))
    if got["dims"] != {dn[0]: len(want), dn[1]: L, dn[2]: W}:
        return bad("dimensions of the output file do not match domain and number of saves", got=got["dims"], saves=len(want), shape=(L, W))
    if got["unlimited"] != [dn[0]]:
        return bad("time is not the unlimited dimension", got=got["unlimited"])
    f4 = np.float32
    if not lib.same(got["vars"]["time"].astype(f4), np.array([w["time"] for w in want], f4)):
        return bad("record times are not the times of the saves", got=got["vars"]["time"].tolist(), want=[w["time"] for w in want])
    if case["legacy"]:
        jj, ii = np.meshgrid(np.arange(W), np.arange(L))
        xs = ys = None
        if got["vars"]["x"].shape != (L, W) or not (lib.same(got["vars"]["x"].astype(f4), jj.astype(f4)) and lib.same(got["vars"]["y"].astype(f4), ii.astype(f4))):
            return bad("coordinates of the legacy layout are not the cell grid")
    else:
        xs, ys = (np.arange(L) * kw["dx"]).astype(f4), (np.arange(W) * kw["dx"]).astype(f4)
        if not (lib.same(got["vars"]["x"].astype(f4), xs) and lib.same(got["vars"]["y"].astype(f4), ys)):
            return bad("coordinates do not describe the domain", x=got["vars"]["x"].tolist(), y=got["vars"]["y"].tolist())
    for v in names:
        a = got["vars"][v]
        if got["vdims"][v] != dn:
            return bad("variable %s has dimensions %s" % (v, got["vdims"][v]))
        if got["units"][v] != UNITS[v]:
            return bad("variable %s has units %r" % (v, got["units"][v]))
        for i, w in enumerate(want):
            if not lib.same(a[i].astype(f4), np.asarray(w[ATTR[v]]).astype(f4)):
                return bad("record %d of %s is not the state when it was saved" % (i, v), where=lib.where_not_close(a[i], w[ATTR[v]], 0, 0)[:3] if hasattr(lib, "where_not_close") else None)
    for v in tv:
        a = got["meta"][v]
        if not lib.same(a.astype(f4), np.array([w[v] for w in want], f4)):
            return bad("time-varying metadata %s is not the state when saved" % v, got=a.tolist(), want=[w[v] for w in want])
    for v, x in fixed.items():
        a = got["meta"][v]
        if not lib.same(np.asarray(a).astype(f4), np.asarray(x).astype(f4)):
            return bad("metadata %s does not describe the configured domain" % v)
    if got["units"]["time"] != "second" or got["units"]["x"] != "meter" or got["units"]["y"] != "meter" or any(got["units"]["meta/" + v] != MUNITS[v] for v in list(fixed) + tv):
        return bad("coordinates or metadata do not have their units", units=got["units"])
    states.add(core.digest(got["vars"]))
