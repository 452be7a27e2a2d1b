"""C03: data and checkpoints are saved on the configured cadence.

Explored: every time-step sequence over the alphabet x every pair of save/checkpoint intervals, on the real
model with its real file output.  Oracle: two independent accumulators.
"""
import hashlib
import itertools
import os
import shutil

import numpy as np

from mc import core, lib

ID = "C03"
MODE = "pure"
BOUNDS = {
    "quick": "all 4-step sequences over time steps {50, 75, 100} x 9 save intervals x 8 checkpoint settings, all 4-step sequences over {50, 100} ended after every step and resumed x 4 save x 5 checkpoint settings, plus configured (non-integer) time steps over 9 steps",
    "thorough": "all 5-step sequences over {50, 75, 100, 200} x 11 save intervals x 10 checkpoint settings, checkpointing on and off; 4-step sequences over {50, 75, 100} ended after every step and resumed x 9 x 8 settings",
}
ASSUMPTIONS = ["in the time-step sequences the morphodynamic stage is replaced (documented subclassing) by a no-op, the I/O path is untouched",
               "time steps of the sequences are exactly representable, so 'interval elapsed' is exact"]

SAVE_Q = [0, 50, 75, 100, 125, 150, 200, 275, 1000]
CKP_Q = ["unset", 0, 50, 100, 125, 150, 250, 1000]


def cases(tier):
    out = []
    if tier == "quick":
        sv, ck, dts, n = SAVE_Q, CKP_Q, (50.0, 75.0, 100.0), 4
    else:
        sv, ck, dts, n = SAVE_Q + [225, 350], CKP_Q + [75, 300], (50.0, 75.0, 100.0, 200.0), 5
    for s, c in itertools.product(sv, ck):
        for first in dts:
            out.append(dict(kind="seq", save=s, ck=c, first=first, dts=list(dts), n=n, on=True))
    for s in sv:
        out.append(dict(kind="seq", save=s, ck="unset", first=dts[0], dts=list(dts), n=n, on=False))
        if tier != "quick":
            for c in ck:
                out.append(dict(kind="seq", save=s, ck=c, first=dts[0], dts=list(dts), n=n, on=False))
    rs, rc, rd, rn = ((75, 100, 125, 200), ("unset", 50, 100, 150, 250), (50.0, 100.0), 4) if tier == "quick" else (
        SAVE_Q, CKP_Q, (50.0, 75.0, 100.0), 4)
    for s, c in itertools.product(rs, rc):
        for stop in range(1, rn):
            out.append(dict(kind="resume", save=s, ck=c, dts=list(rd), n=rn, stop=stop))
    for cfg in (dict(C0_percent=0.07), dict(C0_percent=0.013), dict(u0=1.37), dict(C0_percent=45.0)):
        for a, b in itertools.product((0.4, 0.9, 1.4, 1.9, 2.6, 3.3), (None, 0.4, 0.9, 1.7, 2.9, 4.2)):
            out.append(dict(kind="own", cfg=cfg, a=a, b=b, n=9, real=tier != "quick" or (a == 0.9 and b == 1.7)))
    return out


def content(p):
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()


def make(real):
    M = lib.DeltaModel()
    if real:
        return M

    class Fast(M):
        def solve_water_and_sediment_timestep(self):
            self.eta0 = np.copy(self.eta)
            self.Vp_dep_sand = np.zeros_like(self.eta)
            self.Vp_dep_mud = np.zeros_like(self.eta)
    return Fast


def drive(res, M, kw, steps, setdt, ctx, states, stop=None):
    """Run the steps; with `stop`, the run ends after that many steps and is resumed from its last checkpoint, which
    repeats the steps made since."""
    d = "o"
    shutil.rmtree(d, ignore_errors=True)
    m = M(out_dir=d, **kw)
    nc, ck = os.path.join(d, "pyDeltaRCM_output.nc"), os.path.join(d, "checkpoint.npz")
    save_dt = kw["save_dt"]
    ck_dt = kw.get("checkpoint_dt", None)
    if ck_dt is None:
        ck_dt = save_dt
    on = kw["save_checkpoint"]
    times = [0.0]
    last = content(ck)

    def bad(msg, **k):
        res.fail(msg, dict(ctx, step=int(m.time_iter), **k))
        return False

    def ckstate(want_t):
        with np.load(ck, allow_pickle=True) as z:
            t = float(z["time"]) if "time" in z.files else None
            si = int(z["save_iter"]) if "save_iter" in z.files else None
        if t is not None and abs(t - want_t) > 1e-9 * max(1.0, want_t):
            return bad("checkpoint does not hold the state of the step it belongs to", got=t, want=want_t)
        if si is not None and si != len(times):
            return bad("checkpoint does not count the saves made so far", got=si, want=len(times))
        return True
    ok = True
    if on != (last is not None):
        ok = bad("initial checkpoint presence does not match the configuration")
    elif on:
        ok = ckstate(0.0)
    ed = ec = 0.0
    t = 0.0
    back = (0, 0.0, 0.0, 1)  # the last checkpoint: steps made, time, time since data, saves made
    i = 0
    while i < len(steps) and ok:
        if i == stop:
            stop = None
            m.finalize()
            lib.dispose(m)
            i, t, ed, k = back
            ec = 0.0
            times = times[:k]
            m = M(out_dir=d, resume_checkpoint=True, **kw)
            now = content(ck)
            if now != last:
                ok = bad("resuming wrote a checkpoint")
            elif int(m.time_iter) != i or abs(float(m.time) - t) > 1e-9 or int(m.save_iter) != k:
                ok = bad("the resumed run does not start at the last checkpoint", got=[int(m.time_iter), float(m.time), int(m.save_iter)], want=[i, t, k])
            continue
        dt = steps[i]
        i += 1
        if setdt:
            m.time_step = dt
        else:
            dt = float(m.dt)
        m.update()
        res.transitions += 1
        t += dt
        ed += dt
        ec += dt
        if ed >= save_dt:
            times.append(t)
            ed = 0.0
        now = content(ck)
        if on and ec >= ck_dt:
            ec = 0.0
            back = (i, t, ed, len(times))
            if now == last:
                ok = bad("no checkpoint was written although the checkpoint interval has elapsed")
            else:
                ok = ckstate(t)
        elif now != last:
            ok = bad("a checkpoint was written although the checkpoint interval has not elapsed" if on else "a checkpoint was written although checkpointing is off")
        last = now
        if int(m.save_iter) != len(times):
            ok = bad("number of saves differs from the configured cadence", got=int(m.save_iter), want=len(times))
        states.add(core.digest((ed, ec, len(times), on)))
    m.finalize()
    lib.dispose(m)
    if ok:
        got = lib.read_nc(nc, copy=False)["vars"]["time"].astype(float)
        if len(got) != len(times) or not np.allclose(got, times, rtol=1e-6):
            bad("saved record times differ from the configured cadence", got=got.tolist(), want=times)
    res.traces += 1


def run_case(case):
    res = core.Result()
    states = set()
    if case["kind"] in ("seq", "resume"):
        kw = dict(lib.TINY, save_metadata=True, save_dt=case["save"], save_checkpoint=case.get("on", True))
        if case["ck"] != "unset":
            kw["checkpoint_dt"] = case["ck"]
        M = make(False)
        for seq in itertools.product(*([[case["first"]] if "first" in case else case["dts"]] + [case["dts"]] * (case["n"] - 1))):
            drive(res, M, kw, seq, True, dict(save_dt=case["save"], checkpoint_dt=case["ck"], on=case.get("on", True), time_steps=seq, resumed_after=case.get("stop")),
                  states, case.get("stop"))
            if res.violations:
                break
    else:
        kw = dict(lib.TINY, save_metadata=True, save_checkpoint=True, **case["cfg"])
        dt = 0.3 / (kw["u0"] * kw["C0_percent"] / 100)
        kw["save_dt"] = int(case["a"] * dt)
        if case["b"] is not None:
            kw["checkpoint_dt"] = int(case["b"] * dt)
        drive(res, make(case["real"]), kw, [None] * case["n"], False, dict(cfg=case["cfg"], save_dt=kw["save_dt"], checkpoint_dt=kw.get("checkpoint_dt")), states)
    res.states = len(states)
    res.outcomes = states
    res.sample = case
    return res
