"""C11: changing boundary conditions mid-run leaves no stale derived value.

Explored: all sequences of assignments to the named variables (and steps in between) up to the bound.  Oracle: the
documented formulas, and a model freshly configured with the final values that continues from the same state.
"""
import itertools
import shutil
import warnings

import numpy as np

from mc import core, lib

ID = "C11"
MODE = "pure"
BOUNDS = {
    "quick": "all sequences of 1 and 2 assignments over 20 (variable, value) pairs and of 3 over a core of 8, on new and on stepped models, subsidence on and off; followed by one full update compared with a freshly configured model",
    "thorough": "all sequences of up to 3 assignments over the 20 pairs with a step at every position, and 4 over the core",
}
ASSUMPTIONS = ["values are powers of two where a quotient of them enters, so that both models compute the same numbers"]
RTOL = 1e-9

BASE = dict(lib.TINY, Width=17.0, Np_sed=6, alpha=0.2, subsidence_rate=1e-4, start_subsidence=0, S0=0.001)
OPS = [("channel_flow_velocity", 2.0), ("channel_flow_velocity", 0.5), ("channel_flow_velocity", 1.0),
       ("channel_width", 4.0), ("channel_width", 3.0), ("channel_width", 50.0),
       ("channel_flow_depth", 2.0), ("channel_flow_depth", 0.5), ("channel_flow_depth", 1.0),
       ("influx_sediment_concentration", 0.002), ("influx_sediment_concentration", 0.0005), ("influx_sediment_concentration", 0.001),
       ("bedload_fraction", 0.25), ("bedload_fraction", 0.75), ("bedload_fraction", 0.5),
       ("sea_surface_mean_elevation", 0.25), ("sea_surface_elevation_change", 1e-4),
       ("time_step", 50.0), ("time_step", 1000.0), ("STEP", 1)]
CORE = [0, 3, 6, 9, 12, 15, 17, 19]
PARAM = dict(channel_flow_velocity="u0", channel_width="N0_meters", channel_flow_depth="h0", influx_sediment_concentration="C0_percent",
             bedload_fraction="f_bedload", sea_surface_mean_elevation="H_SL", sea_surface_elevation_change="SLR")
RECOMPUTES = ("channel_flow_velocity", "channel_width", "channel_flow_depth", "influx_sediment_concentration")


def cases(tier):
    out = []
    idx = range(len(OPS))
    for sub in (True, False):
        for pre in (0, 1):
            for i in idx:
                out.append(dict(sub=sub, pre=pre, first=i, depth=2 if tier == "quick" else 3, alpha=list(idx), core=False))
            for i in CORE:
                if sub or tier != "quick":
                    out.append(dict(sub=sub, pre=pre, first=i, depth=3 if tier == "quick" else 4, alpha=CORE, core=True))
    return out


def sequences(case):
    if case["core"]:
        for rest in itertools.product(case["alpha"], repeat=case["depth"] - 1):
            yield (case["first"],) + rest
    else:
        for d in range(case["depth"]):
            for rest in itertools.product(case["alpha"], repeat=d):
                yield (case["first"],) + rest


def formulas(c, L, W, dt):
    dx, u0, h0 = float(c["dx"]), c["u0"], c["h0"]
    N0 = max(3, min(int(round(c["N0_meters"] / dx)), W // 4))
    C0 = c["C0_percent"] / 100.0
    V0 = h0 * dx * dx
    dVs = 0.1 * N0 ** 2 * V0
    Qw0 = u0 * h0 * N0 * dx
    if dt is None:
        dt = dVs / (Qw0 * C0)
    e = dict(N0=N0, channel_width=N0 * dx, u_max=2 * u0, C0=C0, Qw0=Qw0, qw0=u0 * h0, Qs0=Qw0 * C0, qs0=u0 * h0 * C0, V0=V0, dVs=dVs, dt=dt,
             time_step=dt, Vp_sed=dVs / c["Np_sed"], Qp_water=Qw0 / c["Np_water"], gamma=9.81 * c["S0"] * dx / u0 ** 2, dry_depth=min(0.1, 0.1 * h0),
             u0=u0, h0=h0, C0_percent=c["C0_percent"], f_bedload=c["f_bedload"], H_SL=c["H_SL"], SLR=c["SLR"],
             channel_flow_velocity=u0, channel_flow_depth=h0, bedload_fraction=c["f_bedload"], sea_surface_mean_elevation=c["H_SL"], sea_surface_elevation_change=c["SLR"],
             U_dep_mud=0.3, U_ero_sand=1.05, U_ero_mud=1.5)
    n = int(round(dVs / V0))
    e["diffusion_multiplier"] = dt / n * c["alpha"] * 0.5 / dx ** 2
    return e


def stale(m, c, L0, dt):
    e = formulas(c, m.L, m.W, dt)
    for k, w in e.items():
        g = getattr(m, k, None)
        if g is None:
            continue
        if not np.isclose(float(g), float(w), rtol=RTOL, atol=0):
            return k, float(g), float(w)
    if c["toggle_subsidence"] and getattr(m, "sigma", None) is not None:
        want = np.zeros((m.L, m.W))
        want[L0:] = c["subsidence_rate"] * e["dt"]
        if not lib.close(m.sigma, want, rtol=1e-6, atol=1e-15):
            return "sigma", float(np.max(m.sigma)), float(np.max(want))
    return None


def arrays(m):
    return {k: v for k, v in vars(m).items() if isinstance(v, np.ndarray) and k not in ("sigma", "subsidence_mask")}


STATE = ["eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "sand_frac", "active_layer", "Vp_dep_sand", "Vp_dep_mud"]


def run_case(case):
    res = core.Result()
    M = lib.DeltaModel()
    base = dict(BASE, toggle_subsidence=case["sub"])
    states = set()
    for seq in sequences(case):
        c = dict(base, H_SL=0.0, SLR=0.0, f_bedload=0.5)
        ops = [OPS[i] for i in seq]
        ctx = dict(subsidence=case["sub"], steps_before=case["pre"], assignments=ops)
        shutil.rmtree("o", ignore_errors=True)
        shutil.rmtree("f", ignore_errors=True)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = M(out_dir="o", **base)
            L0 = int(m.L0)
            override = None
            np.random.seed(11)
            for _ in range(case["pre"]):
                m.update()
            bad = None
            for name, v in ops:
                if name == "STEP":
                    t0, h0 = m.time, m.H_SL
                    m.update()
                    c["H_SL"] = c["H_SL"] + c["SLR"] * (m.time - t0)
                    res.transitions += 1
                    continue
                setattr(m, name, v)
                res.transitions += 1
                if name == "time_step":
                    override = v
                else:
                    c[PARAM[name]] = v * 100 if name == "influx_sediment_concentration" else v
                    if name in RECOMPUTES:
                        override = None
                bad = stale(m, c, L0, override)
                if bad:
                    break
            if bad is None:
                bad = stale(m, c, L0, override)
            if bad:
                res.fail("%s is stale after changing boundary conditions" % bad[0], dict(ctx, got=bad[1], want=bad[2]))
                lib.dispose(m)
                break
            # behaviour of the next step against a freshly configured model in the same state
            k = dict(c)
            r = BASE["u0"] / c["u0"]
            k.update(coeff_U_dep_mud=0.3 * r, coeff_U_ero_sand=1.05 * r, coeff_U_ero_mud=1.5 * r,
                     hb=BASE["h0"], active_layer_thickness=BASE["h0"] / 2)
            f = M(out_dir="f", **k)
            if override is not None:
                f.time_step = override
            for a, v in arrays(m).items():
                setattr(f, a, v.copy())
            f._time, f._time_iter = m._time, m._time_iter
            np.random.seed(23)
            m.update()
            np.random.seed(23)
            f.update()
        res.transitions += 2
        for g in STATE + ["H_SL", "time", "dt", "hb", "active_layer_thickness"]:
            x, y = getattr(m, g), getattr(f, g)
            if not lib.close(x, y, rtol=1e-4, atol=1e-6):
                res.fail("the step after changing boundary conditions differs from that of a freshly configured model", dict(ctx, quantity=g, where=lib.where_not_close(x, y, 1e-4, 1e-6)))
                break
        states.add(core.digest([sorted((a, repr(b)) for a, b in c.items()), override, m.eta]))
        res.traces += 1
        lib.dispose(m)
        lib.dispose(f)
        if res.violations:
            break
    res.outcomes = states
    res.states = len(states)
    res.sample = dict(case, alpha=None)
    return res
