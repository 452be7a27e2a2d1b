"""C09: a job runs for exactly the configured duration.

Explored: every assignment of {absent, in the file, given directly, both} to the duration settings and the
intermittency, through every entry point (python, command line, set / matrix / ensemble, serial / parallel,
first run / resumed run), on the real batch runner.  Oracle: an independent merge and step counter.
"""
import contextlib
import io
import itertools
import json
import os
import shutil
import sys

import numpy as np

from mc import core, lib

ID = "C09"
MODE = "pure"
YEAR = 86400 * 365.25
BOUNDS = {
    "quick": "{absent, file, direct, both}^3 duration settings x the same for the intermittency x {python, command line}; durations 0-7 steps and fractions; 4 time steps; set/matrix/ensemble; serial, parallel; up to 3 resumptions; conversion helpers over If x units x values",
    "thorough": "as quick with 3 sets of duration values and all time steps for every assignment",
}
ASSUMPTIONS = ["the morphodynamic stage is replaced (documented subclassing) by a no-op", "requested times are not within rounding of a step boundary, except exactly representable ones"]
CFGS = [dict(), dict(C0_percent=0.07), dict(u0=1.37, C0_percent=0.013), dict(C0_percent=45.0)]
WHERE = ["no", "file", "direct", "both"]


def cases(tier):
    out = []
    vals = [(3, 4.6, 1.6)] if tier == "quick" else [(3, 4.6, 1.6), (1, 0.4, 6.3), (0, 2.5, 0.0)]
    for a in itertools.product(WHERE, repeat=3):
        for via in ("py", "cli"):
            for ifw in WHERE:
                for v in vals:
                    for c in ([CFGS[len(out) % 4]] if tier == "quick" else CFGS):
                        out.append(dict(kind="single", where=list(a), If=ifw, via=via, vals=list(v), cfg=c))
    # every duration of one kind
    for c in CFGS:
        for n in range(8):
            for src in ("file", "direct"):
                out.append(dict(kind="one", key="timesteps", v=n, src=src, cfg=c))
        for k in ("time", "time_years"):
            for x in (0.0, 0.3, 0.9, 1.0001, 1.1, 1.7, 2.4, 3.0002, 3.5, 4.9998, 6.2):
                for If in (None, 0.5, 0.05, 1):
                    out.append(dict(kind="one", key=k, v=x, src="file" if If else "direct", If=If, cfg=c))
    # multi-job
    for c in CFGS[:2] if tier == "quick" else CFGS:
        for exp in ("set", "matrix", "ensemble"):
            for par in (None, 1, 2):
                for how in ("file-steps", "file-time", "direct-steps", "direct-over-file", "direct-time-If", "key-steps", "key-time"):
                    if exp == "ensemble" and how.startswith("key"):
                        continue
                    out.append(dict(kind="multi", exp=exp, par=par, how=how, cfg=c))
    # resumed
    for c in CFGS:
        for seq in itertools.product(("timesteps", "time", "time_years"), repeat=3):
            for exp in (None, "set"):
                for par in (None, 2):
                    out.append(dict(kind="resume", seq=list(seq), exp=exp, par=par, cfg=c))
    out.append(dict(kind="helpers"))
    return out


def model():
    M = lib.DeltaModel()

    class Fast(M):
        def solve_water_and_sediment_timestep(self):
            self.eta0 = np.copy(self.eta)
            self.Vp_dep_sand = np.zeros_like(self.eta)
            self.Vp_dep_mud = np.zeros_like(self.eta)
    return Fast


def dt_of(cfg):
    k = dict(lib.TINY, **cfg)
    return 0.1 * 3 * k["dx"] / (k["u0"] * k["C0_percent"] / 100)


def write(path, d):
    with open(path, "w") as f:
        for k, v in d.items():
            f.write("%s: %s\n" % (k, json.dumps(v)))


def expected(conf, dt, t0=0.0, n0=0):
    """Steps a job performs from (time t0, step n0)."""
    if "timesteps" in conf:
        return int(conf["timesteps"])
    If = float(conf.get("If", 1.0))
    if "time" in conf:
        end = t0 + float(conf["time"]) * If
    else:
        end = t0 + float(conf["time_years"]) * If * YEAR
    n, t = 0, t0
    while t < end - 1e-9 * dt:
        t += dt
        n += 1
    return n


def records(d):
    nc = lib.read_nc(os.path.join(d, "pyDeltaRCM_output.nc"))
    return nc["vars"]["time"].astype(float)


@contextlib.contextmanager
def quiet():
    o, sys.stdout = sys.stdout, io.StringIO()
    try:
        yield
    finally:
        sys.stdout = o


def run(pp, M):
    with quiet():
        pp.run_jobs(DeltaModel=M)
    for j in getattr(pp, "job_list", []):
        lib.dispose(getattr(j, "deltamodel", None))


def steps_ok(res, d, want, dt, ctx):
    t = records(d)
    got = len(t) - 1
    if got != want:
        res.fail("a job performed a different number of steps than configured", dict(ctx, steps=got, want=want))
    elif not np.allclose(t, np.arange(want + 1) * dt, rtol=1e-5):
        res.fail("a job's time after its steps is not the number of steps times the time step", dict(ctx, times=t.tolist(), dt=dt))
    res.traces += 1
    res.transitions += want
    res.seen((want, ctx.get("conf"), dt))


def run_case(case):
    from pyDeltaRCM import preprocessor, shared_tools
    preprocessor.time.sleep = lambda *_: None
    res = core.Result()
    res.states = 1
    res.sample = case
    kind = case["kind"]
    if kind == "helpers":
        return helpers(res, preprocessor, shared_tools)
    M = model()
    dt = dt_of(case["cfg"])
    base = dict(lib.TINY, save_dt=0, save_metadata=True, **case["cfg"])
    if kind == "single":
        n, a, b = case["vals"]
        v = {"timesteps": (n, n + 2), "time": (a * dt, (a + 1) * dt), "time_years": (b * dt / YEAR, (b + 2) * dt / YEAR), "If": (0.5, 0.8)}
        f, d = {}, {}
        for k, w in list(zip(("timesteps", "time", "time_years"), case["where"])) + [("If", case["If"])]:
            if w in ("file", "both"):
                f[k] = v[k][0]
            if w == "direct":
                d[k] = v[k][0]
            if w == "both":
                d[k] = v[k][1]
        conf = dict(f)
        conf.update(d)
        write("c.yml", dict(base, out_dir="o", **f))
        has = any(k in conf for k in ("timesteps", "time", "time_years"))
        try:
            if case["via"] == "py":
                pp = preprocessor.Preprocessor("c.yml", **d)
            else:
                old, sys.argv = sys.argv, ["pyDeltaRCM", "--config", "c.yml"] + list(itertools.chain(*[["--" + k, repr(x)] for k, x in d.items()]))
                try:
                    pp = preprocessor.PreprocessorCLI()
                finally:
                    sys.argv = old
            run(pp, M)
        except ValueError as e:
            if has:
                raise
            res.seen("rejected")
            return res
        if not has:
            res.fail("a job without any duration was accepted", dict(case))
            return res
        steps_ok(res, "o", expected(conf, dt), dt, dict(case, conf=conf))
    elif kind == "one":
        If = case.get("If")
        x = case["v"]
        if case["key"] == "time":
            x = x * dt / (If or 1)
        elif case["key"] == "time_years":
            x = x * dt / YEAR / (If or 1)
        d = {case["key"]: x}
        if If:
            d["If"] = If
        write("c.yml", dict(base, out_dir="o", **(d if case["src"] == "file" else {})))
        run(preprocessor.Preprocessor("c.yml", **(d if case["src"] == "direct" else {})), M)
        steps_ok(res, "o", expected(d, dt), dt, dict(case, conf=d))
    elif kind == "multi":
        f, d, key = {}, {}, None
        how = case["how"]
        if how == "file-steps":
            f = dict(timesteps=3)
        elif how == "file-time":
            f = dict(time=2.4 * dt, If=0.5)
        elif how == "direct-steps":
            d = dict(timesteps=2)
        elif how == "direct-over-file":
            f, d = dict(timesteps=4), dict(timesteps=2)
        elif how == "direct-time-If":
            f, d = dict(time=5.5 * dt, If=0.9), dict(If=0.3)
        elif how == "key-steps":
            key = ("timesteps", [1, 3])
        else:
            key = ("time", [0.5 * dt, 2.5 * dt])
        spec = dict(base, out_dir="root", **f)
        spec.pop("seed")
        if case["exp"] == "set":
            spec["set"] = [dict(seed=i, **({key[0]: key[1][i]} if key else {})) for i in (0, 1)]
            confs = [dict(s) for s in spec["set"]]
        elif case["exp"] == "matrix":
            spec["matrix"] = dict(seed=[0, 1], **({key[0]: key[1]} if key else {}))
            confs = [{key[0]: x} for _ in (0, 1) for x in key[1]] if key else [{}, {}]
        else:
            spec["ensemble"] = 3
            confs = [{}] * 3
        if case["par"]:
            spec["parallel"] = case["par"]
        write("c.yml", spec)
        run(preprocessor.Preprocessor("c.yml", **d), M)
        for i, c in enumerate(confs):
            conf = dict(f, **c)
            conf.update(d)
            steps_ok(res, "root/job_%03d" % i, expected(conf, dt), dt, dict(case, job=i, conf=conf))
    elif kind == "resume":
        total = 0
        t = 0.0
        V = dict(timesteps=2, time=2.3 * dt, time_years=1.4 * dt / YEAR)
        for r, k in enumerate(case["seq"]):
            conf = {k: V[k]}
            spec = dict(base, out_dir="root", save_checkpoint=True, **conf)
            if case["par"]:
                spec["parallel"] = case["par"]
            if case["exp"]:
                spec.pop("seed")
                spec["set"] = [dict(seed=0), dict(seed=1)]
            if r:
                spec["resume_checkpoint"] = True
            write("c%d.yml" % r, spec)
            run(preprocessor.Preprocessor("c%d.yml" % r), M)
            n = expected(conf, dt, t, total)
            total += n
            for _ in range(n):
                t += dt
            for d in (["root/job_000", "root/job_001"] if case["exp"] else ["root"]):
                steps_ok(res, d, total, dt, dict(case, resumption=r, conf=conf))
            if res.violations:
                break
    return res


def helpers(res, pre, st):
    n = 0
    for If in (1, 1.0, 0.5, 0.25, 0.1, 0.019, 1e-3):
        for unit, S in (("seconds", 1.0), ("days", 86400.0), ("years", YEAR)):
            for real in (0.0, 1.0, 2.5, 100.0, 1e6):
                # a job of this real duration runs for real * If * S of model time
                mt = real * If * S
                got = st.scale_model_time(mt, If=If, units=unit)
                n += 1
                if not np.isclose(got, real, rtol=1e-12):
                    res.fail("scale_model_time does not invert the scaling of a job's duration", dict(If=If, units=unit, model_time=mt, got=got, want=real))
        for mm in (0.0, 1.0, 3.7, -2.0, 1000.0):
            got = pre.scale_relative_sea_level_rise_rate(mm, If=If)
            n += 1
            # over one real year the job runs If years of model time
            if not np.isclose(got * If * YEAR, mm / 1000.0, rtol=1e-12):
                res.fail("scale_relative_sea_level_rise_rate does not agree with the scaling of a job's duration", dict(If=If, mm=mm, got=got))
    if not np.isclose(st.scale_model_time(5.0), 5.0) or not np.isclose(pre.scale_relative_sea_level_rise_rate(5.0) * YEAR, 0.005):
        res.fail("default intermittency of the conversion helpers is not 1", {})
    for If in (0, -0.1, 1.0000001, 2):
        try:
            st.scale_model_time(10.0, If=If)
            res.fail("intermittency outside (0, 1] accepted by scale_model_time", dict(If=If))
        except ValueError:
            pass
        n += 1
    for u in ("hours", "", "Years", None):
        try:
            st.scale_model_time(10.0, If=0.5, units=u)
            res.fail("unknown unit accepted by scale_model_time", dict(units=u))
        except ValueError:
            pass
        n += 1
    res.states = res.traces = res.transitions = n
    res.seen("helpers")
    return res
