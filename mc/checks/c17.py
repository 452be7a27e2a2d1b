"""C17: sediment moves, settles and erodes by the documented rules.

Explored: all direction choices of sand and mud parcels within the deviation bound from crafted states in every regime (settling,
passing, eroding, limited, emergent, dry).  Oracle: the reference routing; every reference trace is replayed on the compiled model.
"""
import numpy as np

from mc import core, lib, phys, ref
from mc.checks import c13

ID = "C17"
MODE = "jit"
BOUNDS = {
    "quick": "39 state/configuration scenarios: all executions of 2+2 parcels (up to 18 steps) with at most 1 non-preferred choice, each in the middle and at both ends of the probability intervals; 1+1 parcels with at most 2 non-preferred choices; complete walk trees with step limit 3",
    "thorough": "the same with 6 crafted states per scenario, 1+1 parcels with at most 3 and 2+2 parcels with at most 2 non-preferred choices; complete trees with step limit 4",
}
ASSUMPTIONS = c13.ASSUMPTIONS
RULE = "states: distinct final beds; transitions: parcel moves; traces: reference executions replayed on the compiled model"

D = dict(Length=14.0, Width=21.0, stepmax=18)
CFG = {
    "base": dict(D),
    "sandy": dict(D, f_bedload=0.75, coeff_theta_sand=1.5, theta_water=0.7, C0_percent=1.0, Np_sed=4),
    "muddy": dict(D, f_bedload=0.25, coeff_theta_mud=0.6, sed_lag=0.6, C0_percent=0.7),
    "weak": dict(D, coeff_U_ero_sand=0.6, coeff_U_ero_mud=0.9, coeff_U_dep_mud=0.5, beta=2),
    "beta1": dict(D, beta=1, coeff_U_dep_mud=0.8, coeff_U_ero_mud=1.1, coeff_U_ero_sand=0.7, u0=1.3, h0=0.8),
    "beta4": dict(D, beta=4, coeff_U_ero_mud=0.7, coeff_U_ero_sand=0.8, u0=0.7),
    "wide": dict(h0=2.0, u0=0.9, dx=2.5, Length=35.0, Width=50.0, L0_meters=5.0, N0_meters=10.0, stepmax=14, C0_percent=0.4, coeff_U_ero_sand=0.7),
    "high": dict(D, H_SL=0.5, L0_meters=3.0, N0_meters=4.0, coeff_U_dep_mud=0.6),
    "low": dict(D, H_SL=-0.5, L0_meters=1.0, coeff_U_ero_sand=0.5, coeff_U_ero_mud=0.6),
    "short": dict(D, stepmax=4, Np_sed=6),
}
SCEN = [("base", "plain", 0, 0), ("base", "slack", 1, 0), ("base", "shoal", 2, 0), ("base", "swift", 3, 1), ("base", "drybar", 4, 0), ("base", "slope", 5, 0),
        ("sandy", "slack", 1, 0), ("sandy", "swift", 2, 0), ("sandy", "shoal", 3, 1), ("sandy", "swirl", 4, 0), ("muddy", "slack", 1, 0), ("muddy", "swift", 2, 1),
        ("muddy", "shoal", 3, 0), ("weak", "swift", 1, 1), ("weak", "shoal", 2, 0), ("weak", "slack", 3, 0), ("weak", "drybar", 4, 1), ("beta1", "swift", 1, 0),
        ("beta1", "slack", 2, 0), ("beta1", "shoal", 3, 1), ("beta4", "swift", 1, 0), ("beta4", "slack", 2, 0), ("wide", "swift", 1, 0), ("wide", "slack", 2, 0),
        ("wide", "shoal", 3, 1), ("high", "slack", 1, 0), ("high", "swift", 2, 0), ("high", "shoal", 3, 0), ("low", "swift", 1, 0), ("low", "shoal", 2, 0),
        ("low", "drybar", 3, 0), ("short", "swift", 1, 0), ("short", "slack", 2, 0), ("base", "silted", 7, 0), ("weak", "swift-lifted", 1, 0), ("beta1", "swift-lifted", 2, 1),
        ("low", "slack-lifted", 3, 0), ("weak", "plateau", 4, 0), ("high", "plateau", 5, 0)]


def cases(tier):
    deep = tier != "quick"
    out = []
    for sc in SCEN:
        for mode in ("mid", "lo", "hi"):
            out.append(dict(kind="walks", sc=list(sc), mode=mode, bound=1))
        out.append(dict(kind="single", sc=list(sc), mode="mid", bound=2 if not deep else 3, one=1))
        if deep:
            out.append(dict(kind="walks", sc=list(sc), mode="mid", bound=2))
            for extra in range(5):
                for mode in ("mid", "lo", "hi"):
                    out.append(dict(kind="walks", sc=[sc[0], sc[1], sc[2] + 20 + 7 * extra, sc[3]], mode=mode, bound=1))
    for sc in (("base", "slack", 3, 0), ("weak", "swift", 5, 0), ("sandy", "shoal", 4, 1)):
        out.append(dict(kind="tree", sc=list(sc), mode="mid", bound=99, steps=2 if not deep else 3, one=1))
    return out


def warm():
    lib.warm_compile()


def prepare(case):
    cfg = dict(lib.TINY, **CFG[case["sc"][0]])
    if case.get("one"):
        cfg.update(Np_sed=2, f_bedload=0.5)
    if case.get("steps"):
        cfg.update(stepmax=case["steps"])
    m = phys.build(cfg)
    const = phys.constants(m, cfg)
    kind = case["sc"][1]
    fields = phys.craft(m, const, "slack" if kind == "silted" else kind.replace("-lifted", ""), case["sc"][2])
    if kind == "silted":                                  # everything next to the inlet row is dry
        fields["eta"][1] = fields["stage"][1] - 0.02
        fields["depth"][1] = 0.02
    n = phys.noise(77 + case["sc"][2], m.eta.shape)
    if case["sc"][3]:
        m.mod_sed_weight[:] = np.where(n > 0.6, 2.5, np.where(n < -0.7, 0.0, 1 - 0.3 * n))
        m.mod_erosion[:] = np.where(n > 0.2, 1.7, 0.4)
    return m, const, fields


def run_case(case):
    r = core.Result()
    m, const, fields = prepare(case)
    seen = set()
    lift = 1000 + case["sc"][2] if "lifted" in case["sc"][1] else None

    def execute(prefix):
        ch = phys.Choice(prefix, case["mode"])
        before = len(r.violations)
        mon = phys.run_sediment(m, const, fields, ch, r, lift=lift)
        r.traces += 1
        r.transitions += len(ch.points)
        if mon is not None:
            seen.add(core.digest(np.round(np.asarray(m.eta, dtype=float), 5)))
        if len(r.violations) > before:
            r.violations[before:] = [(v[0], dict(case=case, prefix=[p[1] for p in ch.points])) for v in r.violations[before:]]
        if len(r.violations) >= 5:
            ch.points = ch.points[:len(prefix)]
        return ch

    n, capped = lib.explore(execute, case["bound"])
    r.states = len(seen)
    r.outcomes = seen
    r.sample = dict(case=case, beds=len(seen))
    lib.dispose(m)
    return r
