"""C04: crash consistency of checkpoint writing and of resuming.

Explored on the real code: the process is ended at every file-changing system call (and at the page boundary inside every larger write) of the window, for every scenario; then the folder is examined and the run resumed from it.
Oracle: the uninterrupted run.
"""
import ctypes
import json
import os
import shutil
import traceback

import numpy as np

from mc import core, lib

ID = "C04"
MODE = "jit"
PRELOAD = "crash.c"
CASE_TIMEOUT = 900
BOUNDS = {
    "quick": "every system call and every write torn at a page boundary of 6 checkpoint writes and 7 resumes (0-2 earlier resumes, file layouts, cadences)",
    "thorough": "as quick with more scenarios, and every pair (crash while resuming, crash while resuming again) for two scenarios",
}
ASSUMPTIONS = ["process death: completed system calls survive (no power loss) and a write is cut only at a page boundary",
               "interruptions while output data (not checkpoints) are being written are outside the property"]

OUT = {
    "eta": dict(save_eta_grids=True),
    "all": dict(save_eta_grids=True, save_stage_grids=True, save_depth_grids=True, save_velocity_components=True),
    "legacy": dict(save_depth_grids=True, legacy_netcdf=True),
    "meta": dict(save_metadata=True),
    "none": dict(),
}
DT = 300.0
N = 6


def config(c):
    kw = dict(lib.TINY, SLR=1e-5, save_checkpoint=True, **OUT[c["out"]])
    s, k = c["cad"]
    kw["save_dt"] = int(s * DT * 0.97)
    kw["checkpoint_dt"] = int(k * DT * 0.97)
    return kw


def cases(tier):
    out = []
    # window "ckpt": the checkpoint written by the step that follows `upto` steps (with resumes before)
    for o, cad, upto, res in [("eta", (1, 1), 0, []), ("eta", (1, 1), 2, []), ("all", (1, 2), 1, []), ("none", (1, 1), 1, []),
                              ("legacy", (2, 1), 3, [2]), ("meta", (1, 1), 3, [1, 2])]:
        out.append(dict(kind="ckpt", out=o, cad=cad, upto=upto, res=res))
    out.append(dict(kind="init", out="eta", cad=(1, 1), upto=0, res=[]))
    rs = [("eta", (1, 1), 2, [], 2), ("all", (1, 1), 3, [1], 1), ("legacy", (1, 1), 2, [], 1), ("meta", (1, 1), 3, [1, 2], 1),
          ("none", (1, 1), 2, [], 1), ("all", (1, 2), 3, [], 2), ("eta", (2, 1), 3, [2], 1)]
    for o, cad, upto, res, parts in rs:
        for p in range(parts):
            out.append(dict(kind="resume", out=o, cad=cad, upto=upto, res=res, part=[p, parts]))
    if tier != "quick":
        for o in OUT:
            for cad in ((1, 1), (1, 2), (2, 1), (3, 2)):
                for upto, res in ((1, []), (2, [1]), (4, [1, 3]), (5, [])):
                    out.append(dict(kind="ckpt", out=o, cad=cad, upto=upto - 1, res=[r for r in res if r < upto]))
                    for p in range(2):
                        out.append(dict(kind="resume", out=o, cad=cad, upto=upto, res=res, part=[p, 2]))
        for o in ("eta", "meta"):
            for p in range(24):
                out.append(dict(kind="double", out=o, cad=(1, 1), upto=2, res=[], part=[p, 24]))
    return out


def warm():
    lib.warm_compile()
    kw = dict(lib.TINY, save_eta_grids=True, save_checkpoint=True, save_dt=100)
    M = lib.DeltaModel()
    m = M(out_dir="w", **kw)
    m.update()
    m.finalize()
    lib.dispose(m)
    m = M(out_dir="w", resume_checkpoint=True, **kw)
    m.finalize()
    lib.dispose(m)


_shim = None


def shim():
    global _shim
    if _shim is None:
        _shim = ctypes.CDLL(os.environ["MC_SHIM"])
        _shim.mc_crash_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int]
        _shim.mc_crash_disarm.restype = ctypes.c_long
    return _shim


def in_child(fn):
    """Run fn in a forked child; exit code 77 = ended by the injector, 0 = finished, else error text."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            fn()
            os._exit(0)
        except BaseException:
            os.write(w, traceback.format_exc()[-3000:].encode())
            os._exit(9)
    os.close(w)
    txt = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        txt += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), txt.decode(errors="replace")


def window(case, kw, d, at, torn, logfd, note=None):
    """The operation under attack, executed in a child on folder d."""
    M = lib.DeltaModel()
    path = os.path.abspath(d).encode()
    s = shim()

    class P(M):
        live = False

        def hook_output_checkpoint(self):
            if self.live:
                if note:
                    with open(note, "w") as f:
                        json.dump([ckpt_iter(d), int(self.save_iter)], f)
                s.mc_crash_arm(path, at, torn, logfd)
    if case["kind"] == "init":
        P.live = True
        P(out_dir=d, **kw)
    elif case["kind"] == "ckpt":
        # continue the prepared run (or start it), then attack the checkpoint of the next step
        m = P(out_dir=d, **dict(kw, resume_checkpoint=True)) if case["res"] else P(out_dir=d, **kw)
        while m.time_iter < case["upto"]:
            m.update()
        P.live = True
        m.update()
    else:
        if note:
            with open(note, "w") as f:
                json.dump([ckpt_iter(d), None], f)
        s.mc_crash_arm(path, at, torn, logfd)
        M(out_dir=d, resume_checkpoint=True, **kw)
    s.mc_crash_disarm()


def prepare(case, kw, d):
    """Run with the given earlier stop/resume points ('resume' windows: up to the stop that is resumed)."""
    M = lib.DeltaModel()
    stops = sorted(set(case["res"]))
    if case["kind"] in ("resume", "double"):
        stops = sorted(set(stops) | {case["upto"]})
    if not stops:
        os.mkdir(d)
        return
    m = M(out_dir=d, **kw)
    for i, st in enumerate(stops):
        while m.time_iter < st:
            m.update()
        m.finalize()
        lib.dispose(m)
        if i + 1 < len(stops):
            m = M(out_dir=d, resume_checkpoint=True, **kw)


def ckpt_iter(d):
    p = os.path.join(d, "checkpoint.npz")
    if not os.path.exists(p):
        return None
    with np.load(p, allow_pickle=True) as z:
        for k in z.files:
            z[k]
        return int(z["time_iter"])


def run_case(case):
    res = core.Result()
    kw = config(case)
    M = lib.DeltaModel()
    outcomes = set()
    # reference: the run that is never interrupted
    m = M(out_dir="ref", **kw)
    ref = [lib.snap(m)]
    for _ in range(N):
        m.update()
        ref.append(lib.snap(m))
    m.finalize()
    lib.dispose(m)
    has_nc = case["out"] != "none"
    ref_nc = lib.read_nc("ref/pyDeltaRCM_output.nc", copy=False) if has_nc else None
    prepare(case, kw, "base")
    # count the system calls of the window
    shutil.copytree("base", "probe")
    fd = os.open("ops.txt", os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    rc, txt = in_child(lambda: window(case, kw, "probe", -1, 0, fd, "note.json"))
    os.close(fd)
    if rc != 0:
        res.fail("the operation fails without any crash", txt)
        return res
    ops = [l.split() for l in open("ops.txt").read().splitlines()]
    newck = ckpt_iter("probe")
    prev, nrec = json.load(open("note.json"))
    if nrec is None:
        nrec = len(lib.read_nc("base/pyDeltaRCM_output.nc", copy=False)["vars"]["time"]) if has_nc else 0
    if not ops and case["kind"] == "resume" and case["out"] == "none":
        res.extra["windows_without_file_changes"] += 1
    elif not ops:
        raise RuntimeError("no file-changing system call seen in the window: the injector is not effective")
    shutil.rmtree("probe")
    part, parts = case.get("part", [0, 1])
    points = []
    for k, o in enumerate(ops):
        points.append((k, 0))
        if int(o[3]) > 0:
            points.append((k, 1))
    res.extra["crash_points"] += len(points) if part == 0 else 0
    for (k, torn) in points[part::parts]:
        ctx = dict(case=case, crash_at=k, torn=bool(torn), op=ops[k])
        shutil.rmtree("v", ignore_errors=True)
        shutil.copytree("base", "v")
        rc, txt = in_child(lambda: window(case, kw, "v", k, torn, -1))
        res.transitions += 1
        if rc != 77:
            res.fail("crash injection did not end the process (exit %s)" % rc, txt or ctx)
            break
        if case["kind"] == "double":
            fd = os.open("ops2.txt", os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            shutil.copytree("v", "v0")
            rc, txt = in_child(lambda: window(case, kw, "v", -1, 0, fd))
            os.close(fd)
            if rc:
                res.fail("resuming after a crash fails", dict(ctx, error=txt))
                break
            n2 = len(open("ops2.txt").read().splitlines())
            for k2 in range(n2):
                shutil.rmtree("v", ignore_errors=True)
                shutil.copytree("v0", "v")
                rc, txt = in_child(lambda: window(case, kw, "v", k2, 0, -1))
                res.transitions += 1
                verify(res, dict(ctx, second_crash_at=k2), kw, "v", ref, ref_nc, prev, newck, nrec, has_nc, outcomes, short=True)
                if res.violations:
                    break
            shutil.rmtree("v0", ignore_errors=True)
        else:
            verify(res, ctx, kw, "v", ref, ref_nc, prev, newck, nrec, has_nc, outcomes)
        if res.violations:
            break
    res.states = len(outcomes)
    res.outcomes = outcomes
    res.sample = dict(case, system_calls=len(ops), example=ops[:3])
    return res


def verify(res, ctx, kw, d, ref, ref_nc, prev, newck, nrec, has_nc, outcomes, short=False):
    res.traces += 1
    M = lib.DeltaModel()
    files = {}
    for f in sorted(os.listdir(d)):
        if not f.endswith(".log"):
            with open(os.path.join(d, f), "rb") as fh:
                files[f] = fh.read()
    outcomes.add(core.digest(files))
    try:
        it = ckpt_iter(d)
    except Exception as e:
        return res.fail("after the crash the checkpoint cannot be loaded", dict(ctx, error=repr(e)))
    if it is None and prev is None:
        return
    if it not in (prev, newck):
        return res.fail("after the crash the folder holds neither the previous nor the new checkpoint", dict(ctx, got=it, previous=prev, new=newck))
    if has_nc and nrec:
        try:
            got = lib.read_nc(os.path.join(d, "pyDeltaRCM_output.nc"))
        except Exception as e:
            return res.fail("after the crash the output file cannot be read", dict(ctx, error=repr(e)))
        if not records(got, ref_nc, nrec):
            return res.fail("after the crash previously saved records are gone or changed", ctx)
    try:
        m = M(out_dir=d, resume_checkpoint=True, **kw)
    except Exception as e:
        return res.fail("resuming after the crash fails", dict(ctx, error="".join(traceback.format_exception(e))[-1500:]))
    s = lib.snap(m)
    bad = lib.diff(s, ref[it], lib.GRIDS + lib.SCALARS)
    last = it + (1 if short else len(ref) - 1 - it)
    if not bad:
        while m.time_iter < min(last, len(ref) - 1):
            m.update()
        bad = lib.diff(lib.snap(m), ref[m.time_iter], lib.GRIDS + lib.SCALARS)
    n_end = m.save_iter
    m.finalize()
    lib.dispose(m)
    if bad:
        return res.fail("the run resumed after the crash is not the same simulation (%s)" % ",".join(bad), ctx)
    if has_nc:
        got = lib.read_nc(os.path.join(d, "pyDeltaRCM_output.nc"), copy=False)
        if not records(got, ref_nc, int(n_end)):
            return res.fail("records of the run resumed after the crash differ from the uninterrupted run", ctx)


def records(got, ref, n):
    """The first n records of every variable, and all fixed variables, are as in the reference."""
    for sec in ("vars", "meta"):
        for v, a in ref[sec].items():
            if v not in got[sec]:
                return False
            b = got[sec][v]
            tv = ref["vdims"][v if sec == "vars" else "meta/" + v][:1] in (("time",), ("total_time",))
            if tv:
                if len(b) < n or not lib.same(b[:n], a[:n]):
                    return False
            elif not lib.same(a, b):
                return False
    return True
