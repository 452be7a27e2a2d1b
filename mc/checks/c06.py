"""C06: same configuration and seed, same simulation.

Explored: the product of observation settings against a bare run; every ordered batch of jobs up to the
bound, serial and parallel with every slot count, against running each job's written configuration alone.
"""
import itertools
import os
import shutil

import numpy as np

from mc import core, lib

ID = "C06"
MODE = "jit"
BOUNDS = {
    "quick": "3 physical configurations x (3 verbosities x 8 output selections x 3 cadences x 2 general random states x 3 preceding runs), 3 steps; all ordered batches of 2 and 3 jobs from 4 job types, serial and with 1-3 slots; ensembles and unseeded jobs",
    "thorough": "as quick with 6 steps, 5 physical configurations and batches of up to 4 jobs from 5 job types",
}
ASSUMPTIONS = ["models of a batch are run by the Preprocessor; interleaving update calls of two live models in one process is outside the property",
               "parallel batches run under the operating system's scheduler (interleavings are enumerated in C08)"]

PHYS = {
    "a": dict(seed=7),
    "b": dict(seed=11, f_bedload=0.25, SLR=1e-5, H_SL=0.25, itermax=2),
    "c": dict(seed=7, toggle_subsidence=True, subsidence_rate=1e-6, start_subsidence=0.0, C0_percent=0.07),
    "d": dict(seed=0, Np_water=7, Np_sed=9, stepmax=None),
    "e": dict(seed=4294967294, theta_water=0.5, omega_sfc=0.5),
}
ALLG = {("save_%s_grids" % g): True for g in ("eta", "stage", "depth", "discharge", "velocity", "sedflux", "sandfrac")}
OUT = {
    "none": {},
    "grids": dict(ALLG, save_discharge_components=True, save_velocity_components=True),
    "legacy": dict(ALLG, legacy_netcdf=True),
    "meta": dict(save_metadata=True),
    "ckpt": dict(save_checkpoint=True),
    "figs": dict(save_eta_figs=True, save_figs_sequential=True),
    "allfigs": dict({("save_%s_figs" % g): True for g in ("eta", "stage", "depth", "discharge", "velocity", "sedflux", "sandfrac")},
                    save_figs_sequential=False, save_metadata=True),
    "figs1": dict(save_velocity_figs=True, save_figs_sequential=False, save_checkpoint=True, save_eta_grids=True),
}


def cases(tier):
    out = []
    phys = "abc" if tier == "quick" else "abcde"
    n = 3 if tier == "quick" else 6
    for p, o, v in itertools.product(phys, OUT, (0, 1, 2)):
        out.append(dict(kind="obs", phys=p, out=o, verbose=v, n=n))
    types = ["a1", "b1", "a2", "x"] if tier == "quick" else ["a1", "b1", "a2", "x", "c1"]
    for k in (2, 3) if tier == "quick" else (2, 3, 4):
        for b in itertools.product(types, repeat=k):
            slots = [0] + ([1, 2] if k == 2 else [2 if tier == "quick" else 3]) + ([3] if b == tuple(types[:3]) else [])
            for s in slots:
                out.append(dict(kind="batch", jobs=list(b), slots=s, n=2))
    for s in (0, 2):
        for ens, mat in ((2, None), (3, None), (2, [0.25, 0.75])):
            out.append(dict(kind="ensemble", ens=ens, mat=mat, slots=s, n=2))
        out.append(dict(kind="single", slots=s, n=3))
    for p in phys:
        out.append(dict(kind="unseeded", phys=p, n=n))
    return out


def warm():
    lib.warm_compile()
    import matplotlib.pyplot as plt
    plt.figure()
    plt.close("all")


def run(M, d, kw, n, poke=None):
    m = M(out_dir=d, **kw)
    st = [lib.snap(m)]
    for i in range(n):
        if poke:
            poke(i)
        m.update()
        st.append(lib.snap(m, ("qs",)))
    seed = m.seed
    m.finalize()
    lib.dispose(m)
    return st, seed


KEYS = [k for k in lib.GRIDS if True] + ["time", "time_iter", "H_SL"]


def cmp(res, a, b, what, ctx):
    for i, (x, y) in enumerate(zip(a, b)):
        bad = lib.diff(x, y, KEYS + (["qs"] if "qs" in x and "qs" in y else []))
        if bad:
            res.fail(what + " (%s)" % ",".join(bad), dict(ctx, step=i))
            return False
    if len(a) != len(b):
        res.fail(what + " (number of steps)", ctx)
        return False
    return True


def run_case(case):
    res = core.Result()
    M = lib.DeltaModel()
    states = set()
    if case["kind"] == "obs":
        base = dict(lib.TINY, **PHYS[case["phys"]])
        n = case["n"]
        np.random.seed(1)
        ref, _ = run(M, "ref", base, n)
        states.update(core.digest({k: s[k] for k in KEYS}) for s in ref)
        dt = ref[1]["time"]
        j = 0
        for cad, gen, prior in itertools.product((0, 1.6, 50), (1, 2), ("none", "same", "other")):
            if "figs" in case["out"] and (prior != "same" or gen != 2):
                continue
            j += 1
            if prior != "none":
                run(M, "p%d" % j, dict(lib.TINY, **(PHYS[case["phys"]] if prior == "same" else PHYS["d"])), 1)
            np.random.seed(gen)
            kw = dict(base, verbose=case["verbose"], save_dt=int(cad * dt), **OUT[case["out"]])
            if cad == 50:
                kw["checkpoint_dt"] = 0
            got, _ = run(M, "o%d" % j, kw, n, poke=(lambda i: np.random.uniform(size=5)) if gen == 2 else None)
            res.transitions += n
            res.traces += 1
            if not cmp(res, got, ref, "observation settings changed the simulation", dict(case, cadence=cad, general_random=gen, prior=prior)):
                break
            shutil.rmtree("o%d" % j, ignore_errors=True)
            shutil.rmtree("p%d" % j, ignore_errors=True)
    elif case["kind"] == "unseeded":
        base = dict(lib.TINY, **PHYS[case["phys"]])
        for how in ("absent", "null"):
            for gen in (1, 2, 3):
                kw = dict(base)
                if how == "absent":
                    del kw["seed"]
                else:
                    kw["seed"] = None
                np.random.seed(gen)
                got, seed = run(M, "u%s%d" % (how, gen), kw, case["n"])
                ref, _ = run(M, "r%s%d" % (how, gen), dict(base, seed=int(seed)), case["n"])
                logs = [f for f in os.listdir("u%s%d" % (how, gen)) if f.endswith(".log")]
                txt = open(os.path.join("u%s%d" % (how, gen), logs[0])).read()
                if str(int(seed)) not in txt:
                    res.fail("the seed of an unseeded run is not recorded in its log", dict(case, how=how))
                res.transitions += 2 * case["n"]
                res.traces += 1
                states.add(core.digest(got[-1]))
                cmp(res, got, ref, "a run without configured seed is not reproduced by the seed it recorded", dict(case, how=how, seed=int(seed)))
    else:
        batch(res, case, M, states)
    res.states = len(states)
    res.outcomes = states
    res.sample = case
    return res


TYPES = {"a1": dict(seed=1, f_bedload=0.5), "b1": dict(seed=1, f_bedload=0.25), "a2": dict(seed=2, f_bedload=0.5),
         "c1": dict(seed=1, f_bedload=0.75), "x": dict(seed=None, f_bedload=0.5)}


def batch(res, case, M, states):
    from pyDeltaRCM.preprocessor import Preprocessor
    import yaml
    np.random.seed(5)
    fixed = {k: v for k, v in lib.TINY.items() if k not in ("seed", "f_bedload")}
    cfg = dict(fixed, out_dir=os.path.abspath("batch"), timesteps=case["n"], save_dt=10, save_eta_grids=True, save_velocity_grids=True,
               save_sandfrac_grids=True, save_checkpoint=True)
    if case["slots"]:
        cfg["parallel"] = case["slots"]
    if case["kind"] == "batch":
        cfg["set"] = [dict(TYPES[t]) for t in case["jobs"]]
    elif case["kind"] == "ensemble":
        cfg["ensemble"] = case["ens"]
        if case["mat"]:
            cfg["matrix"] = {"f_bedload": case["mat"]}
    else:
        cfg["seed"] = 3
    with open("in.yml", "w") as f:
        yaml.safe_dump(cfg, f)
    pp = Preprocessor("in.yml")
    pp.run_jobs()
    for i, job in enumerate(pp.job_list):
        f = str(pp.file_list[i])
        with open(f) as fh:
            d = yaml.safe_load(fh)["out_dir"]
        got = lib.read_nc(os.path.join(d, "pyDeltaRCM_output.nc"))
        kw = dict(out_dir="alone%d" % i)
        if case["kind"] == "batch" and case["jobs"][i] == "x":
            kw["seed"] = int(job.deltamodel.seed)
        m = M(input_file=f, **kw)
        for _ in range(case["n"]):
            m.update()
        m.finalize()
        lib.dispose(m)
        ref = lib.read_nc("alone%d/pyDeltaRCM_output.nc" % i, copy=False)
        res.traces += 1
        res.transitions += 2 * case["n"]
        for v, a in ref["vars"].items():
            if v not in got["vars"] or not lib.same(a, got["vars"][v]):
                res.fail("a job of a batch does not give the result of running its configuration alone", dict(case, job=i, variable=v))
                return
        with np.load(os.path.join(d, "checkpoint.npz"), allow_pickle=True) as z1, np.load("alone%d/checkpoint.npz" % i, allow_pickle=True) as z2:
            for k in z2.files:
                if k in z1.files and z2[k].dtype != object and not lib.same(z1[k], z2[k]):
                    res.fail("a job of a batch does not end in the state of running its configuration alone", dict(case, job=i, variable=k))
                    return
        states.add(core.digest(ref["vars"]))
        lib.dispose(job.deltamodel)
