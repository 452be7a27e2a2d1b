"""C15: flow fields stay mutually consistent after every step.

Explored: (a) every routing iteration of the C13 walks under flow-related configurations against the reference discharge and
velocity; (b) histories of full updates of the compiled model under all quantised draw sequences with at most one deviation
from a constant one, with the invariants checked after every iteration and every update.
"""
import numpy as np

from mc import core, lib, phys, ref
from mc.checks import c13

ID = "C15"
MODE = "jit"
BOUNDS = {
    "quick": "(a) 13 scenarios (1-3 iterations, several underrelaxations) x {first, later step}, at most 1 non-preferred choice; (b) 13 configurations x 3 constant draw levels x every single deviation (2 levels) at draws 0..95 of the first of 3 updates, plus 40 updates per level",
    "thorough": "(a) 7 crafted states per scenario, 2 deviations; (b) 5 levels, every deviation at draws 0..250, 6 updates, plus 150 updates per level",
}
ASSUMPTIONS = ["draws quantised to levels in (b)", "executions in which a value lies within single precision of a threshold are left out and counted in (a)"]
RULE = c13.RULE

CFG = {
    "base": dict(stepmax=18, Length=14.0, Width=21.0, S0=0.01),
    "one": dict(stepmax=18, Length=14.0, Width=21.0, S0=0.03, omega_flow=0.6, itermax=3, Np_water=2),
    "deep": dict(h0=2.0, u0=0.8, dx=2.0, Length=26.0, Width=40.0, L0_meters=4.0, N0_meters=6.0, S0=0.01, stepmax=14, omega_flow=0.3, itermax=2, Np_water=2),
    "high": dict(H_SL=0.5, Length=14.0, Width=20.0, L0_meters=3.0, N0_meters=4.0, stepmax=14, S0=0.02, omega_flow=1.0),
    "low": dict(H_SL=-0.5, L0_meters=1.0, Length=13.0, Width=19.0, stepmax=14, S0=0.02, omega_sfc=0.9),
}
SCEN = [("base", "plain", 0, 0), ("base", "shoal", 1, 0), ("base", "swirl", 2, 0), ("base", "drybar", 4, 1), ("one", "swift", 1, 0), ("one", "drybar", 3, 0),
        ("one", "plain", 0, 0), ("deep", "shoal", 1, 1), ("deep", "swift", 2, 0), ("high", "shoal", 1, 0), ("high", "plain", 2, 0), ("low", "shoal", 1, 0), ("low", "drybar", 2, 0)]

B = dict(Length=13.0, Width=19.0, stepmax=14, S0=0.01)
HIST = [dict(B), dict(B, itermax=2, Np_sed=6, C0_percent=5.0), dict(B, H_SL=0.4, SLR=1e-4), dict(B, H_SL=-0.4, SLR=-5e-4), dict(B, h0=0.4, u0=1.5, hb=0.2),
        dict(B, toggle_subsidence=True, subsidence_rate=1e-4, start_subsidence=0, Np_sed=6), dict(B, f_bedload=0.25, beta=2, coeff_U_ero_sand=0.3, coeff_U_ero_mud=0.4),
        dict(B, C0_percent=20.0, h0=0.5, Np_sed=8), dict(B, omega_sfc=1.0, omega_flow=0.5, Nsmooth=1, SLR=2e-4), dict(B, S0=0.02, theta_water=0.3, L0_meters=1.0),
        dict(B, dx=2.0, Length=26.0, Width=38.0, L0_meters=4.0, N0_meters=6.0, hb=5.0), dict(B, itermax=3, Np_water=2, C0_percent=3.0, sed_lag=0.5),
        dict(B, SLR=-3e-3, C0_percent=8.0, Np_sed=6)]
# changes of the boundary conditions between updates (named variables), for every second configuration
CHANGES = [None, dict(channel_flow_velocity=0.5), dict(channel_flow_depth=0.5), dict(sea_surface_mean_elevation=0.3)]


def cases(tier):
    deep = tier != "quick"
    out = []
    for sc in SCEN:
        for later in (0, 1):
            out.append(dict(kind="walks", sc=list(sc), later=later, mode="mid", bound=1))
            if deep:
                out.append(dict(kind="pair", sc=list(sc), later=later, mode="mid", bound=2, one=1))
                for extra in range(6):
                    out.append(dict(kind="walks", sc=[sc[0], sc[1], sc[2] + 20 + 7 * extra, sc[3]], later=later, mode="mid", bound=1))
    levels = [0.13, 0.52, 0.87] if not deep else [0.04, 0.25, 0.52, 0.75, 0.96]
    for h in range(len(HIST)):
        for lv in levels:
            out.append(dict(kind="hist", h=h, base=lv, devs=[x for x in levels if x != lv], draws=96 if not deep else 251, steps=3 if not deep else 6,
                            change=(h % len(CHANGES)), long=40 if not deep else 150))
    return out


def warm():
    lib.warm_compile()


def run_case(case):
    if case["kind"] != "hist":
        keep = c13.CFG
        c13.CFG = CFG
        try:
            return c13.run_case(case, aspects=("flow",))
        finally:
            c13.CFG = keep
    return run_hist(case)


class InvMonitor:
    def __init__(self, m, r, why):
        self.m, self.r, self.why = m, r, why
        self.started = False

    def check_iter(self):
        m, r = self.m, self.r
        depth = np.asarray(m.depth, dtype=float)
        dry = depth < min(0.1, 0.1 * float(m.h0)) - 1e-6
        for k in ("uw", "ux", "uy"):
            if np.any(np.asarray(getattr(m, k))[dry] != 0):
                r.fail("a dry cell carries flow velocity after a routing iteration", self.why())
        consistent(m, r, self.why, float(m.H_SL), "after a routing iteration")

    def hook_init_water_iteration(self):
        if self.started:
            self.check_iter()
        self.started = True

    def hook_finalize_timestep(self):
        m = self.m
        self.pre = {k: np.array(getattr(m, k), dtype=float) for k in ("stage", "eta", "depth")}
        self.H = float(m.H_SL)

    def hook_after_finalize_timestep(self):
        m, r, p = self.m, self.r, self.pre
        h0, inl = float(m.h0), np.asarray(m.inlet)
        if (np.abs(p["depth"] - min(0.1, 0.1 * h0)) < 1e-6).any():
            return  # wet or dry is a matter of rounding
        stage, _, amb = ref.flood(p["stage"], p["eta"], p["depth"], min(0.1, 0.1 * h0))
        stage = np.maximum(stage, self.H)
        eta = p["eta"].copy()
        eta[0, inl] = stage[0, inl] - h0
        for k, w in (("stage", stage), ("eta", eta)):
            g = np.where(amb, w, np.asarray(getattr(m, k), dtype=float))
            if not lib.close(g, w, rtol=1e-5, atol=1e-5):
                r.fail("ending the step changes %s other than by flooding, sea level and inlet depth: %s" % (k, lib.where_not_close(g, w, rtol=1e-5, atol=1e-5)), self.why())

    def hook_init_sediment_iteration(self):
        if self.started:
            self.check_iter()
        self.started = False


def consistent(m, r, why, H, when):
    f = {k: np.asarray(getattr(m, k), dtype=float) for k in ("eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "sand_frac")}
    for k, v in f.items():
        if not np.isfinite(v).all():
            r.fail("%s is not finite %s" % (k, when), why())
            return
    if (f["stage"] < H - 1e-5).any():
        r.fail("water surface below sea level %s: %s" % (when, lib.where_not_close(np.minimum(f["stage"], H), np.full_like(f["stage"], H), atol=1e-5)), why())
    d = np.maximum(f["stage"] - f["eta"], 0)
    if not lib.close(f["depth"], d, rtol=1e-5, atol=1e-5):
        r.fail("depth is not surface minus bed %s: %s" % (when, lib.where_not_close(f["depth"], d, rtol=1e-5, atol=1e-5)), why())
    if (f["depth"] < 0).any():
        r.fail("negative depth %s" % when, why())
    if not lib.close(f["uw"], np.hypot(f["ux"], f["uy"]), rtol=1e-4, atol=1e-5):
        r.fail("flow speed is not the magnitude of its components %s: %s" % (when, lib.where_not_close(f["uw"], np.hypot(f["ux"], f["uy"]), rtol=1e-4, atol=1e-5)), why())
    if (f["uw"] > 2 * float(m.u0) * (1 + 1e-5)).any():
        r.fail("flow speed exceeds twice the inlet velocity %s: %g" % (when, f["uw"].max()), why())
    if not lib.close(f["qw"], np.hypot(f["qx"], f["qy"]), rtol=1e-4, atol=1e-5):
        r.fail("discharge is not the magnitude of its components %s" % when, why())
    q0 = float(m.u0) * float(m.h0)
    inl = np.asarray(m.inlet)
    if not (np.allclose(f["qx"][0, inl], q0, rtol=1e-5) and np.allclose(f["qw"][0, inl], q0, rtol=1e-5) and np.allclose(f["qy"][0, inl], 0)):
        r.fail("the inlet row does not carry the configured inflow %s" % when, why())


def run_hist(case):
    r = core.Result()
    cfg = dict(lib.TINY, **HIST[case["h"]])
    m = phys.build(cfg)
    start = {k: np.array(getattr(m, k), copy=True) for k in phys.FIELDS}
    scal = (m.time, m.time_iter, float(m.H_SL))
    seen = set()

    def one(us, steps, change):
        phys.install(m, start)
        m._time, m._time_iter = scal[0], scal[1]
        m.sea_surface_mean_elevation = scal[2]
        m.channel_flow_velocity, m.channel_flow_depth = cfg["u0"], cfg["h0"]
        for n in range(steps):
            def why():
                return dict(case=case, update=n, deviations={k: float(u) for k, u in enumerate(us) if u != case["base"]})
            if n == 1 and change:
                for k, v in change.items():
                    setattr(m, k, v)
            H = float(m.H_SL)
            lib.force_uniforms((us if n == 0 else [case["base"]] * 312)[:312])
            m._mon = InvMonitor(m, r, why)
            m.update()
            m._mon = None
            consistent(m, r, why, H, "after the update")
            inl = np.asarray(m.inlet)
            if not (np.allclose(np.asarray(m.depth)[0, inl], float(m.h0), rtol=1e-5) and
                    np.allclose(np.asarray(m.stage)[0, inl] - np.asarray(m.eta)[0, inl], float(m.h0), atol=1e-5)):
                r.fail("the inlet does not have the configured depth after the update", why())
            r.transitions += 1
            key = core.digest([np.round(np.asarray(m.eta), 5), np.round(np.asarray(m.stage), 5)])
            seen.add(key)
            if len(r.violations) >= 5:
                return
        r.traces += 1

    base = [case["base"]] * 312
    one(base, case["steps"], CHANGES[case["change"]])
    for i in range(case["draws"]):
        for d in case["devs"]:
            if len(r.violations) >= 5:
                break
            one(base[:i] + [d] + base[i + 1:], case["steps"], CHANGES[case["change"]] if i % 7 == 0 else None)
    if not r.violations:
        one(base, case["long"], None)
        # all patterns alternating two levels with period up to 4
        for d in case["devs"]:
            for pat in ([1, 0], [1, 1, 0], [1, 0, 0], [1, 0, 0, 0], [1, 1, 1, 0]):
                one([[case["base"], d][pat[i % len(pat)]] for i in range(312)], case["steps"], None)
    r.states = len(seen)
    r.outcomes = seen
    r.sample = dict(case=case, states=len(seen))
    lib.dispose(m)
    return r
