"""C22: existing results are never overwritten unless asked, and a run writes only into its folder.

Explored: every sequence of operations on one output folder (fresh run, fresh run with clobbering, run saving nothing, resume, resume
without checkpointing, removal of the output file) up to the length bound, for every output selection and every spelling of the
folder; every kind of dry run.  Oracle: a small model of the folder (records of the output file with the run that wrote them, the
checkpoint, the user's own files), compared with the real folder after every operation.
"""
import contextlib
import hashlib
import io
import itertools
import json
import os
import shutil
import sys
import warnings

import numpy as np

from mc import core, lib

ID = "C22"
MODE = "pure"
BOUNDS = {
    "quick": "all sequences of 4 operations of 6 on a folder x 4 output selections; all sequences of 2 x 9 spellings of the folder x 4 selections; 60 dry runs",
    "thorough": "all sequences of 5 operations of 6 x 4 selections",
}
ASSUMPTIONS = ["records a stopped run saved after its last checkpoint may stay in the file until the resumed run replaces them",
               "routing is left out by a subclass that stamps the bed with the run and step",
               "overwriting an existing checkpoint or figure of the same name by a new run is not ruled out by the documentation"]
OPS = ["fresh", "clobber", "nothing", "resume", "resume-only", "delete"]
SEL = dict(grids=dict(save_eta_grids=True), meta=dict(save_metadata=True), legacy=dict(save_eta_grids=True, save_depth_grids=True, legacy_netcdf=True),
           figs=dict(save_eta_grids=True, save_eta_figs=True))
SPELL = ["o", "./o", "o/", "deep/er/o", "o o", "ö", "ABS", "o.nc", "../UP"]
USER = {"notes.txt": b"mine", "eta_old.png": b"png", "new_results.nc": b"not a netcdf", "checkpoint_old.npz": b"zip", "pyDeltaRCM_mine.log": b"log\n",
        "sub/pyDeltaRCM_output.nc": b"other", "sub/checkpoint.npz": b"other2"}


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for sel in SEL:
        for pre in itertools.product(OPS, repeat=2):
            out.append(dict(kind="seq", sel=sel, pre=list(pre), n=n, spell="o"))
        for sp in SPELL:
            out.append(dict(kind="seq", sel=sel, pre=[], n=2, spell=sp))
    out.append(dict(kind="dry"))
    return out




def model():
    M = lib.DeltaModel()

    class Stamp(M):
        run = 0

        def solve_water_and_sediment_timestep(self):
            self.eta0 = np.copy(self.eta)
            self.eta[self.L0:] = -self.run - 0.01 * (self.time_iter + 1)
            self.Vp_dep_sand = np.zeros_like(self.eta)
            self.Vp_dep_mud = np.zeros_like(self.eta)

        def make_figure(self, var, time):
            import matplotlib.pyplot as plt
            return plt.figure(figsize=(0.1, 0.1))
    return Stamp


def tree(root):
    out = {}
    for b, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = hashlib.md5(h.read()).hexdigest()
    return out


def records(path, meta):
    z = lib.read_nc(path)
    t = [round(float(x), 3) for x in z["vars"]["time"]]
    if meta:
        return [(x, None) for x in t]
    return [(x, round(float(e[-1, 0]), 3)) for x, e in zip(t, z["vars"]["eta"])]


def history(res, hist, case, tag, states):
    M = model()
    root = os.path.abspath("h%s" % tag)
    cwd = os.getcwd()
    os.makedirs(root + "/w")
    sp = case["spell"].replace("ABS", root + "/w/abs dir").replace("UP", "up")
    meta = case["sel"] == "meta"
    base = dict(lib.TINY, save_dt=0, save_figs_sequential=True)
    dt = 0.1 * 3 * 1.0 / (base["u0"] * base["C0_percent"] / 100)
    nc = ck = None       # model: list of records / (records known to the checkpoint, time, run)
    run = 0
    os.chdir(root + "/w")
    try:
        folder = os.path.abspath(sp)
        # a neighbour the run has nothing to do with
        os.makedirs(root + "/w/other")
        with open(root + "/w/other/pyDeltaRCM_output.nc", "wb") as f:
            f.write(b"neighbour")
        for f, b in USER.items():
            p = os.path.join(folder, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(b)
        rel = os.path.relpath(folder, root)
        user0 = tree(root)
        figs = 0
        for pos, op in enumerate(hist):
            run += 1
            ctx = dict(history=hist, position=pos, operation=op, selection=case["sel"], folder=case["spell"])
            ncf, ckf = os.path.join(folder, "pyDeltaRCM_output.nc"), os.path.join(folder, "checkpoint.npz")
            before = tree(root)
            if op == "delete":
                if os.path.exists(ncf):
                    os.remove(ncf)
                nc = None
                continue
            kw = dict(base, out_dir=sp, save_checkpoint=op != "resume-only")
            if op == "nothing":
                kw["save_checkpoint"] = False
            else:
                kw.update(SEL[case["sel"]])
            kw["clobber_netcdf"] = op == "clobber"
            if op.startswith("resume"):
                kw["resume_checkpoint"] = True
            steps = 1 + run % 2
            err = None
            M.run = run
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    m = M(**kw)
                    start = (float(m.time), int(m.time_iter))
                    for _ in range(steps):
                        m.update()
                        res.transitions += 1
                    m.finalize()
                    lib.dispose(m)
                except Exception as e:
                    err = e
            import logging
            for name in list(logging.Logger.manager.loggerDict):
                if name.startswith(root):
                    for h in list(logging.getLogger(name).handlers):
                        h.close()
                        logging.getLogger(name).removeHandler(h)
                    del logging.Logger.manager.loggerDict[name]
            if case["sel"] == "figs":
                import matplotlib.pyplot as plt
                plt.close("all")
            after = tree(root)
            res.traces += 1
            refuse = (op == "fresh" and nc is not None) or (op.startswith("resume") and ck is None)
            logs = [f for f in after if f not in user0 and f.endswith(".log")]
            kept = [f for f in before if not (f in logs)]
            if refuse:
                if err is None:
                    return res.fail("an existing output file was not protected: the run was accepted" if op == "fresh" else "a run was resumed without a checkpoint", ctx)
                if op == "fresh" and not isinstance(err, FileExistsError):
                    return res.fail("the refusal to overwrite is not a FileExistsError", dict(ctx, error=repr(err)[:200]))
                bad = [f for f in kept if after.get(f) != before[f]]
                extra = [f for f in after if f not in before and f not in logs]
                if bad or extra:
                    return res.fail("a refused run touched existing files", dict(ctx, changed=bad, added=extra))
            else:
                if err is not None:
                    return res.fail("an admissible run failed", dict(ctx, error=repr(err)[:300]))
                if op != "nothing":
                    new = []
                    if op.startswith("resume"):
                        rec0, t0, n0, lvl = ck
                        if (t0, n0) != start:
                            return res.fail("the resumed run does not start at the checkpoint", dict(ctx, got=start, want=(t0, n0)))
                        had = nc is not None
                        if had:
                            new = [r for r in nc if r[0] <= t0 + 0.01][:rec0]
                    else:
                        t0, n0 = 0.0, 0
                        new = [(0.0, None)]
                        had = True
                    for i in range(steps):
                        new.append((round(t0 + (i + 1) * dt, 3), None if meta else round(-run - 0.01 * (n0 + i + 1), 3)))
                    got = records(ncf, meta)
                    w = new
                    if not had:
                        got_tail = got[len(got) - len(new):]
                        if len(got) > len(new) + 1:
                            return res.fail("a new output file holds foreign records", dict(ctx, got=got))
                        w, cmp = new, got_tail
                    else:
                        cmp = got
                        if op.startswith("resume") and len(got) > len(w):
                            # records of the stopped run beyond the checkpoint may stay
                            w = w + nc[len(w):]
                    if len(cmp) != len(w) or any(abs(a[0] - b[0]) > 0.01 or (b[1] is not None and a[1] != b[1]) for a, b in zip(cmp, w)):
                        return res.fail("the output file does not hold exactly the records of its run", dict(ctx, got=got, want=w))
                    if op == "clobber" and nc is not None and not any("eplac" in str(x.message) for x in ws):
                        return res.fail("replacing an output file gives no warning", ctx)
                    nc = got
                    if kw["save_checkpoint"]:
                        ck = (len(new), float(m.time), n0 + steps, run)
                elif after.get(os.path.join(rel, "pyDeltaRCM_output.nc")) != before.get(os.path.join(rel, "pyDeltaRCM_output.nc")):
                    return res.fail("a run that saves nothing touched the output file", ctx)
            # what nobody asked to change
            for f in user0:
                if after.get(f) != user0[f]:
                    return res.fail("a run changed or removed a file it has nothing to do with", dict(ctx, file=f))
            for f in after:
                if f in user0 or f in logs:
                    if f in logs and os.path.dirname(f) != rel:
                        return res.fail("a run wrote outside its output folder", dict(ctx, file=f))
                    continue
                if os.path.dirname(f) != rel:
                    return res.fail("a run wrote outside its output folder", dict(ctx, file=f))
                b = os.path.basename(f)
                if b not in ("pyDeltaRCM_output.nc", "checkpoint.npz") and not (case["sel"] == "figs" and b.startswith("eta_") and b.endswith(".png")):
                    return res.fail("a run left an unexpected file behind", dict(ctx, file=f))
            if (nc is not None) != os.path.exists(ncf) or (ck is not None) != os.path.exists(ckf):
                return res.fail("output file or checkpoint presence does not follow the configuration", dict(ctx, nc=os.path.exists(ncf), checkpoint=os.path.exists(ckf)))
            states.add(core.digest((None if nc is None else len(nc), None if ck is None else (ck[0], ck[2]), op, refuse)))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def dry(res, states):
    from pyDeltaRCM import preprocessor
    base = dict(lib.TINY, save_eta_grids=True, save_checkpoint=True, save_dt=0)
    for k in ("f_bedload", "u0", "seed"):
        base.pop(k)
    kinds = dict(single={}, matrix=dict(matrix=dict(f_bedload=[0.2, 0.4], u0=[1.0, 2.0])), set=dict(set=[dict(u0=1.0), dict(u0=2.0)]),
                 ensemble=dict(ensemble=2))
    k = 0
    for name, extra in kinds.items():
        for how in ("file", "kwargs", "cli", "dict"):
            for dur in (dict(timesteps=2), dict(time=500.0), dict()):
                for par in (None, 2):
                    if how == "cli" and not dur:
                        continue
                    k += 1
                    d = os.path.abspath("d%d" % k)
                    os.makedirs(d)
                    conf = dict(base, out_dir=d + "/o", **extra)
                    if par:
                        conf["parallel"] = par
                    if how != "cli":
                        conf.update(dur)
                    if how == "file":
                        conf["dryrun"] = True
                    with open(d + "/in.yml", "w") as f:
                        json.dump(conf, f)
                    argv = sys.argv
                    ctx = dict(kind=name, how=how, duration=dur, parallel=par)
                    cwd = os.getcwd()
                    os.chdir(d)
                    try:
                        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            if how == "cli":
                                sys.argv = ["pyDeltaRCM", "--config", "in.yml", "--dryrun"] + sum([["--" + a, str(b)] for a, b in dur.items()], [])
                                preprocessor.preprocessor_wrapper()
                            elif how == "dict":
                                p = preprocessor.Preprocessor(dict(conf, dryrun=True))
                                p.run_jobs()
                            else:
                                p = preprocessor.Preprocessor("in.yml", **(dict(dryrun=True) if how == "kwargs" else {}))
                                p.run_jobs()
                    except Exception as e:
                        return res.fail("a dry run failed", dict(ctx, error=repr(e)[:200]))
                    finally:
                        sys.argv = argv
                        os.chdir(cwd)
                    t = tree(d)
                    res.traces += 1
                    res.transitions += 1
                    bad = [f for f in t if f.endswith((".nc", ".npz", ".log", ".png"))]
                    if bad:
                        return res.fail("a dry run executed the model", dict(ctx, files=bad))
                    njobs = sum(1 for f in t if f.endswith(".yml") and f != "in.yml")
                    if njobs != dict(single=njobs, matrix=4, set=2, ensemble=2)[name]:
                        return res.fail("a dry run does not set up its jobs", dict(ctx, files=sorted(t)))
                    states.add(core.digest((name, how, sorted(t))))
                    shutil.rmtree(d)


def run_case(case):
    res = core.Result()
    states = set()
    if case["kind"] == "dry":
        dry(res, states)
    else:
        for k, rest in enumerate(itertools.product(OPS, repeat=case["n"] - len(case["pre"]))):
            history(res, list(case["pre"]) + list(rest), case, str(k), states)
            if res.violations:
                break
    res.states = len(states)
    res.outcomes = states
    res.sample = case
    return res
