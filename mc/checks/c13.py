"""C13: water parcels walk only through valid cells and account for the discharge.

Explored: all direction choices of the parcels within the deviation bound (and complete walk trees for short step limits), from
crafted and naturally reached states.  Oracle: the reference walk; every reference trace is replayed on the compiled model.
"""
import numpy as np

from mc import core, lib, phys, ref

ID = "C13"
MODE = "jit"
ASPECTS = ("walk",)
BOUNDS = {
    "quick": "31 state/configuration scenarios x {first, later step}: all executions of 2-4 parcels (up to 26 steps, 1 or 2 iterations) with at most 1 non-preferred choice, each in the middle and at both ends of the probability intervals; all walks of a single parcel with at most 2 non-preferred choices; complete walk trees of one parcel with step limits 4 and 5; one parcel led to, and looping at, every cell of 5 basins at and above sea level",
    "thorough": "217 scenarios as above; single parcels with at most 3, pairs with at most 2 non-preferred choices; complete trees up to step limit 6",
}
ASSUMPTIONS = ["executions in which a value lies within single precision of a threshold are left out and counted",
               "the deviate forced into the compiled generator selects the direction the reference chose"]
RULE = "states: distinct complete walks of an iteration; transitions: parcel moves; traces: reference executions replayed on the compiled model"

CFG = {
    "base": dict(stepmax=22, Length=16.0, Width=26.0),
    "steep": dict(S0=0.03, stepmax=20, Length=15.0, Width=22.0, theta_water=0.5, Np_water=2),
    "deep": dict(h0=2.0, u0=0.8, dx=2.0, Length=30.0, Width=44.0, L0_meters=4.0, N0_meters=6.0, S0=0.01, stepmax=18, theta_water=1.5),
    "high": dict(H_SL=0.5, Length=15.0, Width=23.0, L0_meters=3.0, N0_meters=5.0, stepmax=18),
    "low": dict(H_SL=-0.5, L0_meters=1.0, Length=14.0, Width=21.0, stepmax=18),
    "iter2": dict(itermax=2, Np_water=2, stepmax=14, S0=0.01, Length=13.0, Width=20.0),
    "narrow": dict(Length=22.0, Width=19.0, L0_meters=2.0, stepmax=26, S0=0.005),
    "wide": dict(Length=10.0, Width=26.0, L0_meters=2.0, N0_meters=5.0, stepmax=40),
    "short": dict(stepmax=3, Np_water=4, Length=13.0, Width=18.0),
}
SCEN = [("base", "plain", 0, 0), ("base", "shoal", 1, 0), ("base", "swirl", 2, 0), ("base", "calmswirl", 3, 0), ("base", "drybar", 4, 1), ("base", "slope", 5, 0),
        ("steep", "slope", 1, 1), ("steep", "shoal", 2, 1), ("steep", "drybar", 3, 0), ("steep", "swift", 4, 0), ("steep", "swirl", 9, 1),
        ("deep", "plain", 0, 0), ("deep", "shoal", 1, 1), ("deep", "swirl", 2, 0), ("deep", "slope", 6, 0),
        ("high", "plain", 0, 0), ("high", "shoal", 1, 0), ("high", "swirl", 2, 1), ("low", "plain", 0, 0), ("low", "drybar", 1, 0), ("low", "calmswirl", 2, 0),
        ("iter2", "plain", 0, 0), ("iter2", "shoal", 7, 1), ("iter2", "calmswirl", 2, 0), ("narrow", "sideswirl", 0, 0), ("narrow", "sideswirl", 1, 0), ("narrow", "swirl", 2, 0), ("deep", "plateau", 3, 0), ("steep", "plateau", 4, 0), ("short", "plain", 0, 0), ("short", "shoal", 3, 0)]


def cases(tier, bound=1):
    deep = tier != "quick"
    out = []
    for later in (0, 1):
        for n, sc in enumerate(SCEN):
            for mode in ("mid", "lo", "hi"):
                out.append(dict(kind="walks", sc=list(sc), later=later, mode=mode, bound=bound))
            if later:
                out.append(dict(kind="single", sc=list(sc), later=later, mode="mid", bound=2 if not deep else 3, one=1))
            if deep:
                for mode in ("lo", "hi"):
                    out.append(dict(kind="single", sc=list(sc), later=later, mode=mode, bound=2, one=1))
                out.append(dict(kind="pair", sc=list(sc), later=later, mode="mid", bound=2, one=2))
                for extra in range(6):
                    for mode in ("mid", "lo", "hi"):
                        out.append(dict(kind="walks", sc=[sc[0], sc[1], sc[2] + 20 + 7 * extra, sc[3]], later=later, mode=mode, bound=1))
    for cfg in ("base", "narrow", "deep", "low", "wide"):
        for kind in ("pool", "highpool"):
            for first in range(3):
                out.append(dict(kind="tour", sc=[cfg, kind, 0, 0], later=1, mode="mid", one=1, first=first, steps=None))
    for cfg, kind, seed in (("base", "plain", 0), ("base", "shoal", 5), ("steep", "drybar", 6), ("low", "swirl", 3)):
        for n in ((4, 5) if not deep else (4, 5, 6)):
            out.append(dict(kind="tree", sc=[cfg, kind, seed, 0], later=1, mode="mid", bound=99, steps=n))
    return out


def config(case):
    cfg = dict(lib.TINY, **CFG[case["sc"][0]])
    if case.get("steps"):
        cfg.update(Np_water=1, stepmax=case["steps"])
    if case.get("one"):
        cfg.update(Np_water=case["one"])
    if case["kind"] == "tour":
        cfg.update(stepmax=60)
    return cfg


def warm():
    lib.warm_compile()


def prepare(case):
    cfg = config(case)
    m = phys.build(cfg, case["later"])
    const = phys.constants(m, cfg)
    if case["sc"][3]:
        n = phys.noise(99 + case["sc"][2], m.eta.shape)
        m.mod_water_weight[:] = np.where(n > 0.6, 3.0, np.where(n < -0.7, 0.0, 1 + 0.3 * n))
        m.mod_sed_weight[:] = np.where(n < -0.6, 2.5, np.where(n > 0.8, 0.0, 1 - 0.3 * n))
    fields = phys.craft(m, const, case["sc"][1], case["sc"][2])
    return m, const, fields


class Tour(phys.Choice):
    """Walks one parcel to a cell, one step aside and back, so that it loops there; afterwards the preferred direction."""

    def __init__(self, const, target, first):
        super().__init__()
        self.c, self.target, self.first = const, target, first
        self.pos, self.seen, self.phase = None, set(), 0

    def __call__(self, prob, tag, skip=()):
        want = None
        if tag == "water-start":
            want = min(self.first, len(prob) - 1)
            self.pos, self.seen, self.phase = (0, int(self.c["inlet"][want])), set(), 0
        elif self.phase < 3:
            ok = [k for k in range(9) if prob[k] > 2e-3 and k not in skip and k != 4]
            step = {k: (self.pos[0] + int(ref.DI[k]), self.pos[1] + int(ref.DJ[k])) for k in ok}
            self.seen.add(self.pos)
            if self.phase == 0 and self.pos == self.target:
                self.phase = 1
            inner = [k for k in ok if self.c["cell_type"][step[k]] != -1 and step[k] not in self.seen]
            if self.phase == 0 and inner:
                want = min(inner, key=lambda k: ((step[k][0] - self.target[0]) ** 2 + (step[k][1] - self.target[1]) ** 2, k))
            elif self.phase == 1 and inner:
                want, self.phase = inner[0], 2
            elif self.phase == 2:
                back = [k for k in ok if step[k] == self.target]
                want, self.phase = (back[0] if back else None), 3
            if want is None:
                self.phase = 3
            if want is not None:
                self.pos = step[want]
        if want is not None:
            cum = float(np.sum(prob))
            alts = sorted([i for i in range(len(prob)) if prob[i] > 1e-3 * cum and i not in skip], key=lambda i: (-round(prob[i] / cum, 6), i))
            self.prefix = [p[1] for p in self.points] + [alts.index(want)]
        return super().__call__(prob, tag, skip)


def tours(case, m, const, fields, r, aspects, seen):
    L, W = const["cell_type"].shape
    L0 = const["L0"]
    for i in range(L0, L - 1):
        for j in range(1, W - 1):
            if const["cell_type"][i, j] != 0:
                continue
            ch = Tour(const, (i, j), case["first"])
            before = len(r.violations)
            mon = phys.run_water(m, const, fields, ch, r, aspects, False)
            r.traces += 1
            r.transitions += len(ch.points)
            r.extra["tours"] += 1
            if mon is not None:
                r.extra["tours that looped"] += bool(mon.walk.loops)
                seen.add(tuple(mon.summary))
            if len(r.violations) > before:
                r.violations[before:] = [(v[0], dict(case=case, target=(i, j))) for v in r.violations[before:]]
            if len(r.violations) >= 5:
                return


def run_case(case, aspects=ASPECTS):
    r = core.Result()
    m, const, fields = prepare(case)
    seen = set()

    def execute(prefix):
        ch = phys.Choice(prefix, case["mode"])
        before = len(r.violations)
        mon = phys.run_water(m, const, fields, ch, r, aspects, not case["later"])
        r.traces += 1
        r.transitions += len(ch.points)
        if mon is not None:
            key = tuple(mon.summary)
            if key not in seen:
                seen.add(key)
        if len(r.violations) > before:
            r.violations[before:] = [(v[0], dict(case=case, prefix=[p[1] for p in ch.points])) for v in r.violations[before:]]
        if len(r.violations) >= 5:
            ch.points = ch.points[:len(prefix)]
        return ch

    if case["kind"] == "tour":
        tours(case, m, const, fields, r, aspects, seen)
    else:
        n, capped = lib.explore(execute, case["bound"], max_exec=case.get("cap"))
        if capped:
            r.extra["capped explorations"] += 1
    r.states = len(seen)
    r.outcomes = {core.digest(repr(k)) for k in seen}
    r.sample = dict(case=case, walks=len(seen))
    lib.dispose(m)
    return r
