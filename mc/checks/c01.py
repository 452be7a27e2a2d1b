"""C01: resumed runs equal uninterrupted runs, over all split histories."""
import itertools
import os
import shutil

from mc import core, lib

ID = "C01"
MODE = "jit"
BOUNDS = {
    "quick": "6 steps, every subset of up to 2 stop points (with the last step always observed), all configurations listed, output file kept / deleted / checkpoint in another folder",
    "thorough": "9 steps, every subset of up to 3 stop points, larger configuration alphabet",
}
ASSUMPTIONS = ["a stop closes the output file (finalize); kills are covered by C04",
               "configurations are identical across the stop"]

# C0_percent/u0 select the time step: dt = 0.1*N0*dx/(u0*C0)
DTS = {"int": dict(), "frac": dict(C0_percent=0.07), "tiny": dict(C0_percent=70.0), "u": dict(u0=1.3)}


def dt_of(kw):
    return 0.3 / (kw.get("u0", 1.0) * kw.get("C0_percent", 0.1) / 100)


PHYS = {
    "plain": {},
    "slr": dict(SLR=1e-4, H_SL=0.25),
    "subs": dict(toggle_subsidence=True, subsidence_rate=2e-5, start_subsidence=0.0),
    "subs_late": dict(toggle_subsidence=True, subsidence_rate=2e-5, start_subsidence=700.0, SLR=1e-5),
    "bc": dict(sand_frac_bc=0.25, active_layer_thickness=0.02, f_bedload=0.25, Np_sed=8, hb=2.0),
    "iter2": dict(itermax=2, Np_water=5, stepmax=None, omega_sfc=0.5, theta_water=0.5),
}
PHYS["vary"] = dict(SLR=1e-5, toggle_subsidence=True, subsidence_rate=2e-5, start_subsidence=0.0)


def variant(M, phys):
    """A user's model whose inlet conditions and time step follow from the step number, set in the documented hook."""
    if phys != "vary":
        return M

    class Varying(M):
        def hook_solve_water_and_sediment_timestep(self):
            k = self.time_iter % 3
            self.channel_flow_velocity = (1.0, 1.25, 0.7)[k]
            self.bedload_fraction = (0.5, 0.25, 0.75)[k]
            if k == 2:
                self.time_step = 0.8 * self.dt
    return Varying


OUT = {
    "none": {},
    "eta": dict(save_eta_grids=True),
    "all": dict(save_eta_grids=True, save_stage_grids=True, save_depth_grids=True, save_discharge_grids=True,
                save_velocity_grids=True, save_sedflux_grids=True, save_sandfrac_grids=True,
                save_discharge_components=True, save_velocity_components=True),
    "meta": dict(save_metadata=True),
    "legacy": dict(save_depth_grids=True, save_sandfrac_grids=True, legacy_netcdf=True),
}
# save and checkpoint intervals as multiples of the time step
CAD = {"1/1": (1, None), "2/2": (2, None), "1/2": (1, 2), "3/1": (3, 1), "2/3": (2, 3), "1.5/1": (1.5, 1), "2.5/2": (2.5, 2),
       "0/1": (0, 1)}


def config(case):
    kw = dict(lib.TINY)
    kw.update(DTS[case["dt"]])
    kw.update(PHYS[case["phys"]])
    kw.update(OUT[case["out"]])
    dt = dt_of(kw)
    s, c = CAD[case["cad"]]
    kw["save_dt"] = int(s * dt)
    if c is not None:
        kw["checkpoint_dt"] = int(c * dt)
    kw["save_checkpoint"] = True
    return kw


def cases(tier):
    out = []
    n = 6 if tier == "quick" else 9
    maxsplit = 2 if tier == "quick" else 3
    base = []
    # full product of step length x cadence on one physics/output pair, then products of the others
    for dt, cad in itertools.product(DTS, CAD):
        base.append((dt, "slr", "eta", cad))
    for ph, o in itertools.product(PHYS, OUT):
        base.append(("int", ph, o, "2/2"))
        base.append(("frac", ph, o, "2/3"))
        if tier != "quick":
            for dt, cad in itertools.product(DTS, CAD):
                base.append((dt, ph, o, cad))
    seen = set()
    for b in base:
        if b in seen:
            continue
        seen.add(b)
        for nc in ("keep", "delete", "other", "decoy"):
            if nc != "keep" and (b[2] in ("none",) or b[1] not in ("slr", "bc")):
                continue
            out.append(dict(dt=b[0], phys=b[1], out=b[2], cad=b[3], n=n, maxsplit=maxsplit, nc=nc))
    return out


def warm():
    M = lib.DeltaModel()
    m = M(out_dir="w", **dict(lib.TINY, save_eta_grids=True, save_checkpoint=True, save_dt=300))
    m.update()
    m.finalize()
    lib.dispose(m)
    m = M(out_dir="w", resume_checkpoint=True, **dict(lib.TINY, save_eta_grids=True, save_checkpoint=True, save_dt=300))
    m.update()
    m.finalize()
    lib.dispose(m)


KEYS = lib.GRIDS + lib.SCALARS


def run_case(case):
    res = core.Result()
    M = variant(lib.DeltaModel(), case["phys"])
    kw = config(case)
    if case["nc"] == "decoy":
        # the folder resumed into holds an unrelated checkpoint
        m = M(out_dir="decoy", **dict(kw, seed=99))
        m.update()
        m.finalize()
        lib.dispose(m)
    n = case["n"]
    # ---- the uninterrupted run
    m = M(out_dir="base", **kw)
    base = [lib.snap(m)]
    ckpt = {}          # step -> copy of the checkpoint present after that step
    has_nc = os.path.exists("base/pyDeltaRCM_output.nc")
    for i in range(n):
        m.update()
        base.append(lib.snap(m, ("qs",)))
        res.transitions += 1
    m.finalize()
    lib.dispose(m)
    ref_nc = lib.read_nc("base/pyDeltaRCM_output.nc", copy=False) if has_nc else None
    states = set(core.digest(s) for s in base)

    def compare(step, m, after_update):
        s = lib.snap(m, ("qs",) if after_update else ())
        keys = [k for k in KEYS if not (case["nc"] != "keep" and k == "save_iter")]
        if after_update:
            keys = keys + ["qs"]
        bad = lib.diff(s, base[step], keys)
        states.add(core.digest({k: s[k] for k in keys}))
        if bad:
            res.fail("resumed run differs from uninterrupted run in %s" % ",".join(bad),
                     dict(case=case, history=hist, step=step, after_update=after_update, diffs=lib.describe(s, base[step], bad)))
        return not bad

    # ---- every set of stop points
    for k in range(1, case["maxsplit"] + 1):
        for stops in itertools.combinations(range(0, n), k):
            if case["nc"] != "keep" and k > 1:
                continue
            hist = list(stops)
            d = "r_%s" % "_".join(map(str, stops))
            m = M(out_dir=d, **kw)
            ok = True
            folder = d
            for si, stop in enumerate(stops + (n,)):
                while m.time_iter < stop and ok:
                    m.update()
                    res.transitions += 1
                    ok = compare(m.time_iter, m, True)
                m.finalize()
                lib.dispose(m)
                if not ok or si == len(stops):
                    break
                kw2 = dict(kw)
                if case["nc"] in ("other", "decoy"):
                    kw2["resume_checkpoint"] = folder
                    folder = folder + "x"
                    if case["nc"] == "decoy":
                        os.makedirs(folder)
                        shutil.copy("decoy/checkpoint.npz", folder)
                else:
                    kw2["resume_checkpoint"] = True
                    if case["nc"] == "delete" and has_nc:
                        os.remove(os.path.join(folder, "pyDeltaRCM_output.nc"))
                m = M(out_dir=folder, **kw2)
                res.extra["resumes"] += 1
                if m.time_iter > stop:
                    res.fail("resume does not start from a state of the run", dict(case=case, history=hist, step=m.time_iter))
                    ok = False
                else:
                    t = m.time_iter
                    ok = compare(t, m, False)
            res.traces += 1
            if ok and has_nc:
                got = lib.read_nc(os.path.join(folder, "pyDeltaRCM_output.nc"), copy=False)
                compare_nc(res, case, hist, got, ref_nc)
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(d + "x", ignore_errors=True)
            if res.violations:
                break
        if res.violations:
            break
    res.states = len(states)
    res.outcomes = states
    res.sample = case
    return res


def compare_nc(res, case, hist, got, ref):
    tname = "time"
    if set(got["vars"]) != set(ref["vars"]) or set(got["meta"]) != set(ref["meta"]):
        res.fail("output file of the resumed run has different variables", dict(case=case, history=hist, got=sorted(got["vars"]), want=sorted(ref["vars"])))
        return
    gt, rt = got["vars"][tname], ref["vars"][tname]
    if case["nc"] == "keep":
        if not lib.same(gt, rt):
            res.fail("output records of the resumed run have different times", dict(case=case, history=hist, got=gt.tolist(), want=rt.tolist()))
            return
        pairs = [(i, i) for i in range(len(rt))]
    else:
        # a fresh file: its records must be the tail of the uninterrupted run's
        rl = rt.tolist()
        if gt.tolist() != rl[len(rl) - len(gt):]:
            res.fail("records written after resuming into a new file are not the later records of the run",
                     dict(case=case, history=hist, got=gt.tolist(), want=rl))
            return
        pairs = [(i, len(rl) - len(gt) + i) for i in range(len(gt))]
    for sec in ("vars", "meta"):
        for v, a in ref[sec].items():
            b = got[sec][v]
            tv = a.ndim > 0 and ref["vdims"][v if sec == "vars" else "meta/" + v][:1] in (("time",), ("total_time",))
            if tv:
                for i, j in pairs:
                    if not lib.same(b[i], a[j]):
                        res.fail("record %d of %s differs from the uninterrupted run" % (i, v), dict(case=case, history=hist))
                        return
            elif not lib.same(a, b):
                res.fail("fixed variable %s differs from the uninterrupted run" % v, dict(case=case, history=hist))
                return
