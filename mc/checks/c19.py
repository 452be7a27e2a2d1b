"""C19: subsidence and sea level act at the configured rate and time.

Explored: all histories of {step, change of the rise rate, of the sea level, of the time step, of the inlet flow, of the subsidence
pattern, resume from checkpoint} up to the length bound, and all combinations of switch, rate, start time (before, at, between and
after step times), rise rate and initial level with a resume at every point.  Water and sediment routing are left out of most
histories (a subclass overrides them), so that the change of the bed over a step is the subsidence; the others take real steps and
observe the bed at the documented hooks around the stage.  Oracle: automaton of (time, time step, rates, sea level).
"""
import itertools

import numpy as np

from mc import core, lib

ID = "C19"
MODE = "pure"
OPS = "ustvrhg"
BOUNDS = {
    "quick": "all 7-operation histories of length <= 5 ending in a step (3 configurations); 5 rates x 8 start times x 4 rise rates x 3 levels x 5 resume points over 4 steps; 40 histories of real steps",
    "thorough": "histories of length <= 6 (5 configurations), the rest as quick",
}
ASSUMPTIONS = ["the subsiding pattern is the configured one or one assigned by a hook, as documented",
               "a resumed run uses the rates of its own configuration"]
RULE = "states: distinct (time, level, bed offset) states; transitions: operations executed"
HIST = [dict(toggle_subsidence=True, subsidence_rate=1e-4, start_subsidence="1", SLR=1e-5, H_SL=0.0),
        dict(toggle_subsidence=True, subsidence_rate=2e-4, start_subsidence="1.5", SLR=-2e-5, H_SL=0.25, Length=18.0, L0_meters=4.0),
        dict(toggle_subsidence=False, subsidence_rate=1e-4, start_subsidence="0", SLR=3e-5, H_SL=-0.5),
        dict(toggle_subsidence=True, subsidence_rate=1e-4, start_subsidence="0", SLR=0.0, H_SL=0.0),
        dict(toggle_subsidence=True, subsidence_rate=5e-5, start_subsidence="2", SLR=1e-5, H_SL=0.0)]
RATES = [(False, 1e-4), (True, 1e-4), (True, 0.0), (True, -1e-4), (True, 1e-3)]
STARTS = ["0", "0.5", "1", "1.5", "2", "3-", "3+", "99"]


def cases(tier):
    deep = tier != "quick"
    out = []
    n = 6 if deep else 5
    for c in range(5 if deep else 3):
        for a, b in itertools.product(OPS, repeat=2):
            out.append(dict(kind="hist", cfg=c, head=a + b, n=n))
    for k in range(len(RATES)):
        for st in STARTS:
            out.append(dict(kind="grid", rate=k, start=st))
    for c in range(len(HIST)):
        out.append(dict(kind="real", cfg=c))
    return out


_cls = {}


def classes():
    if not _cls:
        M = lib.DeltaModel()

        class Still(M):
            def route_water(self):
                pass

            def route_sediment(self):
                pass

        class Watch(M):
            def hook_apply_subsidence(self):
                self._w0 = np.array(self.eta, dtype=float)

            def hook_finalize_timestep(self):
                self._w1 = np.array(self.eta, dtype=float)
        _cls.update(still=Still, watch=Watch)
    return _cls


_dt = []


def step_of(cfg):
    """time step of a configuration (read once from a model; the formula is checked by C11)"""
    key = (cfg.get("u0", 1.0),)
    for k, v in _dt:
        if k == key:
            return v
    m = classes()["still"](out_dir="dt", **dict(lib.TINY, u0=key[0]))
    want = 0.9 / (key[0] * 3 * 0.001)
    if abs(m.dt / want - 1) > 1e-9:
        raise core.Violation("time step %r, expected %r" % (m.dt, want))
    v = float(m.dt)
    lib.dispose(m)
    _dt.append((key, v))
    return v


def start_time(spec, dt):
    if spec == "3-":
        return dt + dt + dt - dt * 1e-6
    if spec == "3+":
        return dt + dt + dt + dt * 1e-6
    if spec in ("2",):
        return dt + dt
    return float(spec) * dt


class World:
    """the real model and the automaton side by side"""

    def __init__(self, r, cfg, d, kind="still", case=None):
        self.r, self.case, self.kind = r, case, kind
        self.dt0 = step_of({})
        cfg = dict(lib.TINY, **cfg)
        cfg["start_subsidence"] = start_time(cfg["start_subsidence"], self.dt0)
        self.cfg, self.dir = cfg, d
        self.m = classes()[kind](out_dir=d, save_checkpoint=True, save_dt=0, **cfg)
        self.t, self.H = 0.0, cfg["H_SL"]
        self.ops = ""
        self.ckp = None
        self.pattern = self.base_pattern()
        self.configure()

    def base_pattern(self):
        p = np.zeros((self.m.L, self.m.W))
        p[int(round(self.cfg["L0_meters"])):] = 1.0
        return p

    def configure(self):
        c = self.cfg
        self.dt, self.SLR = self.dt0, c["SLR"]
        self.rate = c["subsidence_rate"] if c["toggle_subsidence"] else 0.0
        self.pattern = self.base_pattern()
        self.u0 = 1.0

    def fail(self, msg):
        self.r.fail(msg, dict(case=self.case, ops=self.ops, config={k: v for k, v in self.cfg.items() if k not in lib.TINY or lib.TINY[k] != v}))

    def op(self, o):
        """False if the operation is not applicable here"""
        m = self.m
        self.ops += o
        self.r.transitions += 1
        if o == "s":
            self.SLR = m.SLR = 7e-5 if self.SLR != 7e-5 else 0.0
        elif o == "h":
            self.H = self.H + 0.125
            m.H_SL = self.H
        elif o == "t":
            self.dt = self.dt0 * (0.25 if self.dt != self.dt0 * 0.25 else 0.75)
            m.time_step = self.dt
        elif o == "v":
            self.u0 = 2.0 if self.u0 != 2.0 else 4.0
            m.channel_flow_velocity = self.u0
            self.dt = self.dt0 / self.u0
        elif o == "g":
            if not self.cfg["toggle_subsidence"]:
                return False
            self.pattern = np.where(np.arange(m.W)[None, :] % 2 == len(self.ops) % 2, 2.0, 0.5) * self.base_pattern()
            m.sigma = self.pattern * self.rate * self.dt
        elif o == "r":
            if self.ckp is None:
                return False
            lib.dispose(m)
            self.m = classes()[self.kind](out_dir=self.dir, save_checkpoint=True, save_dt=0, resume_checkpoint=True, **self.cfg)
            self.t, self.H, eta = self.ckp
            self.configure()
            if not np.array_equal(np.asarray(self.m.eta), eta):
                self.fail("bed differs after resuming")
            self.level("resuming")
        elif o == "u":
            self.step()
        return True

    def step(self):
        m = self.m
        before = np.array(m.eta, dtype=float)
        m.update()
        after = np.array(m.eta, dtype=float)
        if self.kind == "watch":
            before, after = m._w0, m._w1
        else:
            before[0, np.asarray(m.inlet)] = after[0, np.asarray(m.inlet)]      # the channel bottom at the inlet is a boundary condition
        on = self.cfg["toggle_subsidence"] and self.t >= self.cfg["start_subsidence"]
        if self.cfg["toggle_subsidence"] and 0 < abs(self.t - self.cfg["start_subsidence"]) < 1e-9 * self.dt0:
            on = None
        down = before - after
        want = self.pattern * self.rate * self.dt
        still = want == 0
        if on is False or on is None and not down.any():
            if down.any():
                self.fail("the bed subsides in a step starting at %g, before the start time %g" % (self.t, self.cfg["start_subsidence"]) if self.cfg["toggle_subsidence"] else "the bed subsides although subsidence is off")
        elif not np.allclose(down, want, rtol=1e-4, atol=2e-6) or down[still].any():
            self.fail("subsidence of the step starting at %g (start time %g): %s" % (self.t, self.cfg["start_subsidence"], lib.where_not_close(down, want, rtol=1e-4, atol=2e-6)))
        else:
            self.r.extra["subsiding steps"] += 1
        self.H += self.SLR * self.dt
        self.t += self.dt
        self.level("a step")
        self.ckp = (self.t, self.H, np.array(m.eta))
        self.r.extra["steps"] += 1

    def level(self, what):
        m = self.m
        if abs(m.H_SL - self.H) > 1e-12 + 1e-9 * abs(self.H):
            self.fail("sea level after %s is %r, expected %r" % (what, m.H_SL, self.H))
        if abs(m.time - self.t) > 1e-9 * max(1.0, self.t):
            self.fail("model time after %s is %r, expected %r" % (what, m.time, self.t))


def run_case(case):
    r = core.Result()
    states = set()
    k = 0

    def play(cfg, ops, kind="still"):
        nonlocal k
        k += 1
        w = World(r, cfg, "run%d" % k, kind, case)
        ok = True
        for o in ops:
            if not w.op(o):
                ok = False
                break
        if ok:
            r.traces += 1
            states.add((round(w.t, 6), round(w.H, 9), float(np.asarray(w.m.eta, dtype=float).sum())))
        lib.dispose(w.m)

    if case["kind"] == "hist":
        for n in range(0, case["n"] - 2):
            for tail in itertools.product(OPS, repeat=n):
                ops = case["head"] + "".join(tail) + "u"
                if "r" in ops and "u" not in ops[:ops.index("r")] or any(x + x in ops for x in "rh"):
                    continue
                play(HIST[case["cfg"]], ops)
                if len(r.violations) > 5:
                    return r
    elif case["kind"] == "grid":
        tog, rate = RATES[case["rate"]]
        for slr in (0.0, 1e-5, -1e-5, 1e-3):
            for H in (0.0, 0.5, -0.25):
                cfg = dict(toggle_subsidence=tog, subsidence_rate=rate, start_subsidence=case["start"], SLR=slr, H_SL=H)
                for resume in range(5):
                    play(cfg, "u" * resume + ("r" if resume else "") + "u" * (4 - resume))
    else:
        for ops in ("uuu", "uru", "usu", "utu", "uvu", "uhu", "guu", "uturu"):
            play(HIST[case["cfg"]], ops, "watch")
    r.states = len(states)
    r.outcomes = {core.digest(s) for s in states}
    r.sample = dict(case=case, states=len(states))
    return r
