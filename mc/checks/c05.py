"""C05: the timestep protocol (hooks, stages, clock, lifecycle).

Explored: every operation sequence over {update, finalize, resume} up to the bound for every configuration
of the alphabet, on the real model with a recording subclass.  Oracle: the documented order, written out
here as a little grammar, plus the rule that nothing changes between a hook and its stage.
"""
import hashlib
import itertools
import os

import numpy as np

from mc import core, lib

ID = "C05"
MODE = "jit"
BOUNDS = {
    "quick": "all sequences of 4 operations over {update, finalize, resume}, all 216 configurations, with whole, fractional and changing time steps",
    "thorough": "all sequences of 6 operations",
}
ASSUMPTIONS = ["hook_init_output_file on resume is not part of the order (it depends on the output file)"]

INIT = ["import_files", "process_input_to_model", "create_other_variables", "create_domain"]
OUT = ["init_output_file", "output_data", "output_checkpoint"]
STAGES = INIT + OUT + ["load_checkpoint", "solve_water_and_sediment_timestep", "route_water", "init_water_iteration",
                       "run_water_iteration", "compute_free_surface", "finalize_water_iteration", "route_sediment",
                       "init_sediment_iteration", "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels",
                       "apply_subsidence", "finalize_timestep", "compute_sand_frac"]
AFTER = ["create_domain", "route_water", "route_sediment", "finalize_timestep"]


def seq(name, inner=(), after=False):
    return [("hook", name), ("begin", name)] + list(inner) + [("end", name)] + ([("after", name)] if after else [])


def expect_init(resume, defer):
    ev = []
    for s in INIT:
        ev += seq(s, after=s in AFTER)
    if resume:
        ev += seq("load_checkpoint")
    elif not defer:
        for s in OUT:
            ev += seq(s)
    return ev


def expect_update(itermax):
    water = []
    for i in range(itermax):
        water += seq("init_water_iteration") + seq("run_water_iteration") + seq("compute_free_surface")
        water += seq("finalize_water_iteration")
    sed = seq("init_sediment_iteration") + seq("route_all_sand_parcels") + seq("topo_diffusion") + seq("route_all_mud_parcels")
    ev = seq("solve_water_and_sediment_timestep", seq("route_water", water, True) + seq("route_sediment", sed, True))
    ev += seq("apply_subsidence") + seq("finalize_timestep", seq("compute_sand_frac"), True)
    ev += seq("output_data") + seq("output_checkpoint")
    return ev


WATCH = ["eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "sand_frac", "active_layer", "Vp_dep_sand", "Vp_dep_mud",
         "time", "time_iter", "save_iter", "H_SL"]


def fingerprint(m):
    h = hashlib.blake2b(digest_size=8)
    for k in WATCH:
        try:
            v = getattr(m, k)
        except AttributeError:
            continue
        h.update(k.encode())
        h.update(np.ascontiguousarray(v).tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
    return h.hexdigest()


def recorder():
    M = lib.DeltaModel()
    ns = {}

    def mk(name):
        def hook(self, *a):
            self._ev.append((("hook", name), fingerprint(self), a, clock(self)))
            return getattr(M, "hook_" + name)(self, *a)

        def stage(self, *a, **k):
            self._ev.append((("begin", name), fingerprint(self), a, clock(self)))
            r = getattr(M, name)(self, *a, **k)
            self._ev.append((("end", name), fingerprint(self), a, clock(self)))
            return r
        ns["hook_" + name] = hook
        ns[name] = stage
    for s in STAGES:
        mk(s)

    def mka(name):
        def hook(self):
            self._ev.append((("after", name), fingerprint(self), (), clock(self)))
            return getattr(M, "hook_after_" + name)(self)
        ns["hook_after_" + name] = hook
    for s in AFTER:
        mka(s)
    ns["_ev"] = None

    def init(self, *a, **k):
        self._ev = []
        M.__init__(self, *a, **k)
    ns["__init__"] = init
    return type("Recorder", (M,), ns)


def clock(m):
    return (float(m.time), int(m.time_iter))


CFG = dict(
    itermax=[0, 1, 2, 3],
    subs=["off", "on", "late"],
    out=["none", "grids", "meta"],
    ck=[False, True],
    bed=[0.0, 0.5, 1.0],
)


def cases(tier):
    n = 4 if tier == "quick" else 6
    out = []
    keys = list(CFG)
    for vals in itertools.product(*[CFG[k] for k in keys]):
        c = dict(zip(keys, vals))
        k = sum(i * j for i, j in zip((1, 3, 5, 7, 11), [CFG[x].index(c[x]) for x in keys]))
        c["verbose"] = (k // 2) % 3
        c["cad"] = ("every", "second", "never")[(k // 3) % 3]
        c["dt"] = ("int", "frac", "vary")[k % 3]
        c["n"] = n
        out.append(c)
    return out


def conf(c):
    kw = dict(lib.TINY, itermax=c["itermax"], f_bedload=c["bed"], verbose=c["verbose"], SLR=1e-5,
              save_checkpoint=c["ck"], save_eta_grids=c["out"] == "grids", save_metadata=c["out"] == "meta")
    if c["dt"] == "frac":
        kw["C0_percent"] = 0.07
    dt = 0.3 / (kw["C0_percent"] / 100)
    kw["save_dt"] = {"every": 0, "second": int(1.7 * dt), "never": 10 ** 9}[c["cad"]]
    if c["subs"] != "off":
        kw.update(toggle_subsidence=True, subsidence_rate=1e-6, start_subsidence=0.0 if c["subs"] == "on" else 1.5 * dt)
    return kw


def warm():
    lib.warm_compile()


def folder_state(d):
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".log"):
            continue
        p = os.path.join(d, f)
        with open(p, "rb") as fh:
            out[f] = hashlib.md5(fh.read()).hexdigest()
    return out


def check_events(res, ctx, got, want, resume=False):
    ev = [e for e in got]
    if resume:
        lo = [i for i, e in enumerate(ev) if e[0] == ("begin", "load_checkpoint")]
        hi = [i for i, e in enumerate(ev) if e[0] == ("end", "load_checkpoint")]
        if lo and hi:
            ev = [e for i, e in enumerate(ev) if not (lo[0] < i < hi[0])]
    names = [e[0] for e in ev]
    if names != want:
        i = next((i for i in range(min(len(names), len(want))) if names[i] != want[i]), min(len(names), len(want)))
        res.fail("documented hooks and stages did not run once and in order",
                 dict(ctx, position=i, got=names[max(0, i - 2):i + 3], want=want[max(0, i - 2):i + 3]))
        return False
    for a, b in zip(ev, ev[1:]):
        pair = (a[0][0], b[0][0])
        if a[0][1] == b[0][1] and pair in (("hook", "begin"), ("end", "after")) and (a[1] != b[1] or a[3] != b[3]):
            res.fail("model state changed between hook and stage %s" % a[0][1], dict(ctx))
            return False
    it = [e[2] for e in ev if e[0] == ("hook", "finalize_water_iteration")]
    if it != [(i,) for i in range(len(it))]:
        res.fail("hook_finalize_water_iteration does not receive the iteration number", dict(ctx, got=it))
        return False
    return True


def run_case(case):
    res = core.Result()
    R = recorder()
    kw = conf(case)
    states = set()
    ops = "UFR" if case["ck"] else "UF"
    done = set()
    for hist in itertools.product(ops, repeat=case["n"]):
        # resume is possible only from a stopped (finalized) run
        fin = False
        ok = True
        for o in hist:
            if o == "F":
                fin = True
            elif o == "R":
                if not fin:
                    ok = False
                fin = False
        if not ok:
            continue
        d = "o_" + "".join(hist)
        m = R(out_dir=d, **kw)
        ctx = dict(config=case, history="".join(hist))
        if not check_events(res, dict(ctx, op="construct"), m._ev, expect_init(False, False)):
            break
        finalized = False
        tcount, t = 0, 0.0
        lastck = (0, 0.0)
        for k, o in enumerate(hist):
            c2 = dict(ctx, op=o, position=k)
            m._ev = []
            pre = fingerprint(m)
            if finalized and o in "UF":
                files = folder_state(d)
                try:
                    m.update() if o == "U" else m.finalize()
                    res.fail("a finalized model accepted a further %s" % ("update" if o == "U" else "finalize"), c2)
                except RuntimeError:
                    pass
                if fingerprint(m) != pre or folder_state(d) != files or m._ev:
                    res.fail("a rejected operation on a finalized model changed its state or output", c2)
            elif o == "U":
                if case["dt"] == "vary":
                    m.time_step = (100.0, 37.5, 251.0, 60.0)[tcount % 4]
                    m._ev = []
                dt = float(m.dt)
                m.update()
                res.transitions += 1
                if not check_events(res, c2, m._ev, expect_update(case["itermax"])):
                    break
                clk = [(e[0], e[3]) for e in m._ev]
                cut = next(i for i, e in enumerate(clk) if e[0] == ("hook", "output_data"))
                before, after = set(e[1] for e in clk[:cut]), set(e[1] for e in clk[cut:])
                if before != {(t, tcount)} or after != {(t + dt, tcount + 1)} or (m.time, m.time_iter) != (t + dt, tcount + 1):
                    res.fail("clock and step counter do not advance by exactly one time step per update",
                             dict(c2, before=list(before), after=list(after), want=(t + dt, tcount + 1)))
                    break
                t, tcount = t + dt, tcount + 1
                with_ck = case["ck"] and m.save_time_since_checkpoint == 0
                if with_ck:
                    lastck = (tcount, t)
            elif o == "F":
                m.finalize()
                finalized = True
                if m._ev:
                    res.fail("finalize runs stages of the timestep", c2)
            else:
                lib.dispose(m)
                m = R(out_dir=d, resume_checkpoint=True, **kw)
                finalized = False
                if not check_events(res, c2, m._ev, expect_init(True, False), resume=True):
                    break
                if m.time_iter > tcount:
                    res.fail("resumed model is ahead of the run", c2)
                t, tcount = float(m.time), int(m.time_iter)
            states.add(core.digest((finalized, tcount, pre)))
            if res.violations:
                break
        lib.dispose(m)
        res.traces += 1
        if res.violations:
            break
    if not res.violations:
        m = R(out_dir="deferred", defer_output=True, **kw)
        check_events(res, dict(config=case, op="construct deferred"), m._ev, expect_init(False, True))
        if os.path.exists("deferred/pyDeltaRCM_output.nc") or os.path.exists("deferred/checkpoint.npz"):
            res.fail("deferred output was written during construction", dict(config=case))
        lib.dispose(m)
    res.states = len(states)
    res.outcomes = states
    res.sample = case
    return res
