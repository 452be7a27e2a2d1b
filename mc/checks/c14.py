"""C14: the water surface is what the parcel walks imply.

Explored: the walks of C13 under surface-related configurations.  Oracle: an independent computation of the surface from the
walks the model recorded (averages, smoothing, underrelaxation, flooding), compared at the hooks around each iteration.
"""
from mc import lib
from mc.checks import c13

ID = "C14"
MODE = "jit"
BOUNDS = {
    "quick": "28 state/configuration scenarios (smoothing 0-5 passes, several underrelaxations, sea level -0.5, 0, 0.5) x {first, later step}: all executions with at most 1 non-preferred choice, single parcels with at most 2, one or two iterations",
    "thorough": "the same with 7 crafted states per scenario, pairs with at most 2 and single parcels with at most 3 non-preferred choices",
}
ASSUMPTIONS = c13.ASSUMPTIONS[:1] + ["cells whose flooding depends on differences below single precision are left out"]
RULE = c13.RULE

CFG = {
    "base": dict(stepmax=20, Length=15.0, Width=24.0, S0=0.01),
    "strong": dict(stepmax=18, Length=14.0, Width=21.0, S0=0.03, omega_sfc=0.7, Nsmooth=2, Csmooth=0.5, Np_water=2),
    "raw": dict(stepmax=18, Length=14.0, Width=20.0, S0=0.02, omega_sfc=1.0, Nsmooth=0, Np_water=3),
    "deep": dict(h0=2.0, u0=0.8, dx=2.0, Length=28.0, Width=42.0, L0_meters=4.0, N0_meters=6.0, S0=0.01, stepmax=16, omega_sfc=0.4, Nsmooth=1, Csmooth=0.2),
    "thin": dict(h0=0.5, u0=1.4, Length=14.0, Width=20.0, S0=0.01, stepmax=16, omega_sfc=0.6, Nsmooth=1),
    "high": dict(H_SL=0.5, Length=14.0, Width=20.0, L0_meters=3.0, N0_meters=4.0, stepmax=16, S0=0.02, omega_sfc=0.5),
    "low": dict(H_SL=-0.5, L0_meters=1.0, Length=13.0, Width=19.0, stepmax=16, S0=0.02, omega_sfc=0.9, Nsmooth=1),
    "narrow": dict(Length=22.0, Width=19.0, stepmax=24, S0=0.02, omega_sfc=0.5, Nsmooth=1),
    "iter2": dict(itermax=2, Np_water=2, stepmax=14, Length=13.0, Width=19.0, S0=0.02, omega_sfc=0.5, Nsmooth=3, Csmooth=0.7),
}
SCEN = [("base", "plain", 0, 0), ("base", "shoal", 1, 0), ("base", "swirl", 2, 0), ("base", "drybar", 4, 1), ("strong", "swift", 1, 0), ("strong", "shoal", 2, 0),
        ("strong", "drybar", 3, 0), ("strong", "calmswirl", 4, 0), ("raw", "swift", 1, 0), ("raw", "shoal", 2, 0), ("raw", "drybar", 3, 0), ("raw", "slope", 4, 0),
        ("deep", "shoal", 1, 1), ("deep", "swift", 2, 0), ("high", "shoal", 1, 0), ("high", "drybar", 2, 0), ("high", "swift", 3, 0), ("low", "shoal", 1, 0),
        ("low", "drybar", 2, 0), ("low", "swift", 3, 0), ("base", "plateau", 1, 0), ("raw", "plateau", 2, 0), ("deep", "plateau", 3, 0), ("deep", "slowtop", 1, 0), ("deep", "slowtop", 4, 1), ("thin", "slowtop", 2, 0), ("thin", "shoal", 3, 0), ("high", "plateau", 5, 0), ("narrow", "sideswirl", 6, 0), ("iter2", "swift", 1, 0), ("iter2", "drybar", 2, 0)]


def cases(tier):
    deep = tier != "quick"
    out = []
    for sc in SCEN:
        for later in (0, 1):
            out.append(dict(kind="walks", sc=list(sc), later=later, mode="mid", bound=1))
        out.append(dict(kind="single", sc=list(sc), later=1, mode="mid", bound=2 if not deep else 3, one=1))
        if deep:
            out.append(dict(kind="pair", sc=list(sc), later=1, mode="mid", bound=2, one=2))
            for extra in range(6):
                for later in (0, 1):
                    out.append(dict(kind="walks", sc=[sc[0], sc[1], sc[2] + 20 + 7 * extra, sc[3]], later=later, mode="mid", bound=1))
    return out


def warm():
    lib.warm_compile()


def run_case(case):
    keep = c13.CFG
    c13.CFG = CFG
    try:
        return c13.run_case(case, aspects=("surface",))
    finally:
        c13.CFG = keep
