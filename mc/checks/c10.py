"""C10: configuration is applied exactly, or rejected with an error.

Explored: every documented parameter x every value of its alphabet x every source, all pairs of parameters from
different sources, every wrong type and out-of-range value, unknown names, subclass parameters, number notations.
Oracle: the parameter table below (names, types, defaults, ranges), written from the documentation.
"""
import itertools
import json
import os
import shutil
import warnings

import numpy as np

from mc import core, lib

ID = "C10"
MODE = "pure"
BOUNDS = {
    "quick": "56 parameters x all values of the alphabet x {file, keyword, keyword over file, keyword over another valid value}; all ordered pairs of parameters, one in the file and one as keyword; 7 wrong types and all out-of-range values per parameter; unknown names; subclass parameters; 14 number notations",
    "thorough": "as quick, with every pair of values for all pairs of parameters that constrain each other, and triples over a core of 12 parameters",
}
ASSUMPTIONS = ["a rejected value may raise any exception"]
N = (float, int)
# name: (accepted types, documented default, valid non-default values, out-of-range values)
P = {
    "verbose": ((int,), 0, [1, 2], []),
    "seed": ((int, type(None)), None, [0, 5, 2**31], []),
    "Length": (N, 5000.0, [20.0, 15, 31.5], [0, -1.0, -0.001]),
    "Width": (N, 10000.0, [20.0, 15, 24.7], [0, -3]),
    "dx": (N, 50.0, [0.5, 0.75], [0, -1.0, 11.0, 1e9]),
    "L0_meters": (N, 150.0, [0, 1.0, 2.4, 100.0], [-0.1, -5]),
    "S0": (N, 0.00015, [0.0, 0.001, 1], []),
    "itermax": ((int,), 3, [0, 2, 5], [-1]),
    "Np_water": ((int,), 2000, [1, 7], [0, -4]),
    "u0": (N, 1.0, [0.3, 2, 1.7], []),
    "N0_meters": (N, 250.0, [4.0, 4, 100.0], [0, -2.0]),
    "h0": (N, 5.0, [0.5, 3, 7.25], []),
    "hb": (N + (type(None),), None, [0.4, 3, 7.5, 0.0], []),
    "H_SL": (N, 0.0, [-3.0, 2, 0.125], []),
    "SLR": (N, 0.0, [1e-8, -1e-8, 1], []),
    "Np_sed": ((int,), 2000, [2, 9], [0, -1]),
    "f_bedload": (N, 0.5, [0.25, 0.75, 0, 1, 0.0, 1.0], [-0.001, 1.0001, 2, -1]),
    "active_layer_thickness": (N + (type(None),), None, [0, 0.2, 3], [-0.01, -1]),
    "C0_percent": (N, 0.1, [0.05, 1, 2.5], [-0.1, -1]),
    "Csmooth": (N, 0.9, [0, 0.5, 1], [-0.1]),
    "toggle_subsidence": ((bool,), False, [True], []),
    "subsidence_rate": (N, 2e-9, [1e-7, 0, -1e-7], []),
    "start_subsidence": (N, 216000, [0, 1000.5], []),
    "save_figs_sequential": ((bool,), True, [False], []),
    "save_metadata": ((bool,), False, [True], []),
    "save_dt": ((int,), 86400, [0, 300, 100000], []),
    "checkpoint_dt": ((int, type(None)), None, [0, 500], []),
    "save_checkpoint": ((bool,), False, [True], []),
    "omega_sfc": (N, 0.1, [0, 0.5, 1.0], []),
    "omega_flow": (N, 0.9, [0.5, 1], []),
    "Nsmooth": ((int,), 10, [0, 3], []),
    "theta_water": (N, 1.0, [0.5, 2], []),
    "coeff_theta_sand": (N, 2.0, [1, 0.5], []),
    "coeff_theta_mud": (N, 1.0, [3, 0.25], []),
    "beta": ((int,), 3, [2, 5], []),
    "sed_lag": (N, 1.0, [0.5, 2], []),
    "coeff_U_dep_mud": (N, 0.3, [0.1, 1], []),
    "coeff_U_ero_mud": (N, 1.5, [2, 1.25], []),
    "coeff_U_ero_sand": (N, 1.05, [2, 1.25], []),
    "alpha": (N, 0.1, [0, 0.3], []),
    "stepmax": (N + (type(None),), None, [5, 9.0, 40], []),
    "sand_frac_bc": (N, 0, [0.5, -1, 1], []),
    "clobber_netcdf": ((bool,), False, [True], []),
    "legacy_netcdf": ((bool,), False, [True], []),
    "resume_checkpoint": ((bool, str), False, [], []),
    "out_dir": ((str,), "deltaRCM_Output", ["elsewhere", "a/b", "x y"], []),
}
for _v in ("eta", "stage", "depth", "discharge", "velocity", "sedflux", "sandfrac"):
    P["save_%s_figs" % _v] = ((bool,), False, [True], [])
    P["save_%s_grids" % _v] = ((bool,), False, [True], [])
for _v in ("discharge", "velocity"):
    P["save_%s_components" % _v] = ((bool,), False, [True], [])

BASE = dict(Length=10.0, Width=12.0, dx=1.0, L0_meters=2.0, N0_meters=3.0, Np_water=3, Np_sed=4, h0=1.0)
WRONG = ["text", True, [1], {"a": 1}, None, 1.5, 3]
NUMS = ["2", "2.", "2.0", "2e0", "2E0", "2e+0", "20e-1", "0.2e1", ".2e1", "+2.0", "2.0e0", "0002.0", "2_0.0", "200.0E-2"]


def others(name):
    return [k for k in P if k != name and k not in ("resume_checkpoint",)]


def cases(tier):
    out = [dict(kind="defaults"), dict(kind="unknown"), dict(kind="subclass"), dict(kind="numbers"), dict(kind="both"), dict(kind="setters")]
    for k in P:
        out.append(dict(kind="values", name=k))
        out.append(dict(kind="wrong", name=k))
        out.append(dict(kind="pairs", name=k, all=tier != "quick"))
    if tier != "quick":
        for t in itertools.combinations(["Length", "Width", "dx", "N0_meters", "h0", "hb", "u0", "C0_percent", "active_layer_thickness", "save_dt", "checkpoint_dt", "stepmax"], 3):
            out.append(dict(kind="triple", names=list(t)))
    return out


_n = [0]


def build(file=None, kw=None, cls=None, fresh=True):
    """A model from a file and keywords; returns (model or exception, messages of warnings)."""
    _n[0] += 1
    M = cls or lib.DeltaModel()
    kw = dict(kw or {})
    args = {}
    if file is not None:
        path = "c%d.yml" % _n[0]
        with open(path, "w") as f:
            for k, v in file.items():
                f.write("%s: %s\n" % (k, v.text if isinstance(v, Raw) else json.dumps(v)))
        args["input_file"] = path
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            m = M(**args, **kw)
        except Exception as e:  # noqa
            m = e
    d = kw.get("out_dir", (file or {}).get("out_dir", "deltaRCM_Output"))
    if isinstance(d, str):
        lib.dispose(m if not isinstance(m, Exception) else None)
        shutil.rmtree(d.split("/")[0], ignore_errors=True)
    return m, [str(w.message) for w in ws if issubclass(w.category, UserWarning)]


class Raw:
    def __init__(self, text):
        self.text = text


def dims(c):
    L, W = int(round(c["Length"] / c["dx"])), int(round(c["Width"] / c["dx"]))
    return L, W


def expect(conf):
    """Documented value of every parameter of a model configured by `conf`."""
    c = {k: v[1] for k, v in P.items()}
    c.update(conf)
    e = dict(c)
    if c["hb"] is None:
        e["hb"] = c["h0"]
    if c["active_layer_thickness"] is None:
        e["active_layer_thickness"] = c["h0"] / 2
    if c["checkpoint_dt"] is None:
        e["checkpoint_dt"] = c["save_dt"]
    L, W = dims(c)
    e["stepmax"] = 2 * (L + W) if c["stepmax"] is None else int(c["stepmax"])
    grids = any(c[k] for k in P if k.startswith("save_") and (k.endswith("_grids") or k.endswith("_components")))
    if grids:
        e["save_metadata"] = True
    e["_L"], e["_W"] = L, W
    return e


def derived(e):
    L, W = e["_L"], e["_W"]
    dx, u0, h0 = float(e["dx"]), e["u0"], e["h0"]
    L0 = max(1, min(int(round(e["L0_meters"] / dx)), L // 4))
    N0 = max(3, min(int(round(e["N0_meters"] / dx)), W // 4))
    C0 = e["C0_percent"] / 100.0
    V0 = h0 * dx * dx
    dVs = 0.1 * N0 ** 2 * V0
    Qw0 = u0 * h0 * N0 * dx
    return dict(L=L, W=W, L0=L0, N0=N0, u_max=2 * u0, C0=C0, Qw0=Qw0, qw0=u0 * h0, Qs0=Qw0 * C0, qs0=u0 * h0 * C0, V0=V0, dVs=dVs,
                dt=dVs / (Qw0 * C0), Vp_sed=dVs / e["Np_sed"], Qp_water=Qw0 / e["Np_water"], gamma=9.81 * e["S0"] * dx / u0 ** 2,
                dry_depth=min(0.1, 0.1 * h0), theta_sand=e["coeff_theta_sand"] * e["theta_water"], theta_mud=e["coeff_theta_mud"] * e["theta_water"],
                U_dep_mud=e["coeff_U_dep_mud"] * u0, U_ero_sand=e["coeff_U_ero_sand"] * u0, U_ero_mud=e["coeff_U_ero_mud"] * u0)


def check(res, m, conf, ctx):
    if isinstance(m, Exception):
        res.fail("an admissible configuration was rejected", dict(ctx, error=repr(m)[:300]))
        return
    e = expect(conf)
    for k in P:
        got, want = getattr(m, k, "<missing>"), e[k]
        if k == "seed" and want is None:
            ok = isinstance(got, (int, np.integer)) and 0 <= int(got) < 2 ** 32
        elif k == "resume_checkpoint" and isinstance(want, str):
            ok = got is True
        elif isinstance(want, (bool, str)):
            ok = got == want and isinstance(got, type(want))
        else:
            ok = not isinstance(got, str) and got is not None and got == want
        if not ok:
            res.fail("parameter %s does not have its configured value" % k if k in conf else "parameter %s does not have its documented default" % k,
                     dict(ctx, parameter=k, got=repr(got), want=repr(want)))
            return
    for k, want in derived(e).items():
        got = getattr(m, k, None)
        if got is not None and not np.isclose(float(got), float(want), rtol=1e-6, atol=0):
            res.fail("quantity %s does not follow from the configured parameters" % k, dict(ctx, got=float(got), want=float(want)))
            return
    res.traces += 1
    res.seen({k: repr(e[k]) for k in P})


def effective(name, v):
    """Configuration with one parameter set, keeping the domain small."""
    c = dict(BASE)
    c[name] = v
    return c


def split(c, keys):
    return {k: v for k, v in c.items() if k not in keys}, {k: v for k, v in c.items() if k in keys}


def run_case(case):
    res = core.Result()
    kind = case["kind"]
    res.sample = case
    n = 0
    if kind == "defaults":
        for src in ("none", "empty", "comment"):
            if src == "none":
                m, w = build(None, {})
            else:
                m, w = build({} if src == "empty" else {"# nothing": 1}, {})
            n += 1
            check(res, m, {}, dict(source=src))
            if w:
                res.fail("a warning without any input", dict(source=src, warnings=w))
    elif kind == "values":
        k = case["name"]
        types, default, vals, _ = P[k]
        valid = vals + ([default] if k not in ("Length", "Width", "dx", "L0_meters", "N0_meters", "Np_water", "Np_sed") else [])
        if k == "resume_checkpoint":
            valid = [False]
        for v in valid:
            c = effective(k, v)
            f, d = split(c, (k,))
            n += 4
            m, w = build(c, {})
            check(res, m, c, dict(parameter=k, value=repr(v), source="file"))
            m, w = build(f, d)
            check(res, m, c, dict(parameter=k, value=repr(v), source="keyword"))
            if w:
                res.fail("an unexpected warning for a plain configuration", dict(parameter=k, warnings=w))
            m, w = build(None, c)
            check(res, m, c, dict(parameter=k, value=repr(v), source="keywords only"))
            for v2 in valid:
                if v2 is not v:
                    n += 1
                    m, w = build(dict(f, **{k: v2}), d)
                    check(res, m, c, dict(parameter=k, value=repr(v), file=repr(v2), source="keyword over file"))
            if res.violations:
                break
    elif kind == "wrong":
        k = case["name"]
        types, default, vals, bad = P[k]
        for v in WRONG + bad:
            if type(v) in types and not any(v is b for b in bad):
                continue
            c = effective(k, v)
            f, d = split(c, (k,))
            for src in ("file", "keyword"):
                m, w = build(c, {}) if src == "file" else build(f, d)
                n += 1
                if not isinstance(m, Exception):
                    res.fail("a value of a wrong type or outside the documented range was accepted", dict(parameter=k, value=repr(v), source=src, got=repr(getattr(m, k, None))))
    elif kind == "pairs":
        k = case["name"]
        for k2 in others(k):
            if k == "resume_checkpoint" or not P[k][2] or not P[k2][2]:
                continue
            vs1, vs2 = (P[k][2][:1], P[k2][2][:1]) if not case["all"] else (P[k][2], P[k2][2])
            for a, b in itertools.product(vs1, vs2):
                c = dict(BASE)
                c[k], c[k2] = a, b
                f, d = split(c, (k2,))
                m, w = build(f, d)
                n += 1
                check(res, m, c, dict(file={k: repr(a)}, keyword={k2: repr(b)}))
            if res.violations:
                break
    elif kind == "triple":
        for vs in itertools.product(*[P[k][2] for k in case["names"]]):
            c = dict(BASE)
            c.update(zip(case["names"], vs))
            f, d = split(c, case["names"][1:2])
            m, w = build(f, d)
            n += 1
            check(res, m, c, dict(values={k: repr(v) for k, v in zip(case["names"], vs)}))
    elif kind == "unknown":
        for bad in (["foo"], ["foo", "lenght"], ["matrix"], ["foo", "matrix"], ["set", "bar"], ["ensemble"], ["U0"], ["save_eta"]):
            for src in ("file", "keyword"):
                vals = {b: ({"f_bedload": [0.1, 0.2]} if b == "matrix" else [{"f_bedload": 0.1}] if b == "set" else 2 if b == "ensemble" else 0.7) for b in bad}
                c = dict(BASE, f_bedload=0.25)
                m, w = build(dict(c, **vals), {}) if src == "file" else build(c, vals)
                n += 1
                check(res, m, c, dict(unknown=bad, source=src))
                if not all(any(b in x for x in w) for b in bad):
                    res.fail("an unknown parameter was not named in a warning", dict(unknown=bad, source=src, warnings=w))
        # settings of the batch runner are known
        m, w = build(dict(BASE, timesteps=3, time=10.0, time_years=1.0, parallel=2, dryrun=False), {})
        n += 1
        check(res, m, BASE, dict(what="batch settings"))
        if w:
            res.fail("a warning for settings of the batch runner", dict(warnings=w))
    elif kind == "both":
        for k in ("u0", "f_bedload", "save_dt"):
            m, w = build(dict(BASE, **{k: P[k][2][0]}), {k: P[k][2][1]})
            n += 1
            check(res, m, dict(BASE, **{k: P[k][2][1]}), dict(parameter=k, source="both"))
    elif kind == "numbers":
        for k in ("h0", "u0", "SLR", "C0_percent", "theta_water"):
            for t in NUMS:
                v = float(t.replace("_", ""))
                if k == "C0_percent":
                    pass
                m, w = build(dict(BASE, **{k: Raw(t)}), {})
                n += 1
                check(res, m, dict(BASE, **{k: v}), dict(parameter=k, text=t))
        for k, t, v in (("SLR", "-1e-9", -1e-9), ("subsidence_rate", "3E-8", 3e-8), ("S0", "1.5e-4", 1.5e-4), ("start_subsidence", "1e3", 1000.0)):
            m, w = build(dict(BASE, **{k: Raw(t)}), {})
            n += 1
            check(res, m, dict(BASE, **{k: v}), dict(parameter=k, text=t))
        for t, v in (("true", True), ("True", True), ("false", False), ("yes", True), ("no", False), ("on", True), ("off", False)):
            m, w = build(dict(BASE, save_eta_grids=Raw(t)), {})
            n += 1
            check(res, m, dict(BASE, save_eta_grids=v), dict(text=t))
        for t in ("null", "~", ""):
            m, w = build(dict(BASE, hb=Raw(t), stepmax=Raw(t), checkpoint_dt=Raw(t), active_layer_thickness=Raw(t)), {})
            n += 1
            check(res, m, BASE, dict(text=t))
        # read from a file whose other content is untouched
    elif kind == "setters":
        for k, (types, default, vals, bad) in P.items():
            if not bad:
                continue
            m, w = build(dict(BASE), {})
            for b in bad:
                old = getattr(m, k)
                n += 1
                try:
                    setattr(m, k, b)
                    res.fail("an out-of-range value was assigned to a live model", dict(parameter=k, value=b))
                except ValueError:
                    if getattr(m, k) != old:
                        res.fail("a rejected assignment changed the model", dict(parameter=k, value=b))
    elif kind == "subclass":
        n = subclass(res)
    res.states = res.transitions = n
    return res


def subclass(res):
    M = lib.DeltaModel()
    n = 0
    spec = {"p_f": ({"type": ["float", "int"], "default": 0.5}, [1.5, 2], ["x", True, None]),
            "p_b": ({"type": "bool", "default": True}, [False, True], [0, "no", None]),
            "p_z": ({"type": ["float", "int"], "default": 0}, [0.0, 3.5], ["x", False]),
            "p_o": ({"type": "bool", "default": False}, [True, False], [0, None]),
            "p_e": ({"type": "str", "default": ""}, ["q"], [0]),
            "p_s": ({"type": "str", "default": "abc"}, ["xyz", ""], [1, None]),
            "p_n": ({"type": ["int", "None"], "default": None}, [3, None], [2.5, "q", False]),
            "p_l": ({"type": ["list"], "default": [1]}, [[2, 3], []], [4, "a"])}

    class Sub(M):
        def hook_import_files(self):
            for k, (d, _, _) in spec.items():
                self.subclass_parameters[k] = dict(d)
    seen = {k: d["default"] for k, (d, _, _) in spec.items()}
    m, w = build(dict(BASE), {}, Sub)
    n += 1

    def verify(m, conf, ctx):
        if isinstance(m, Exception):
            res.fail("an admissible subclass parameter was rejected", dict(ctx, error=repr(m)[:300]))
            return
        want = dict(seen, **conf)
        for k, v in want.items():
            got = getattr(m, k, "<missing>")
            if got != v or type(got) is not type(v):
                res.fail("subclass parameter does not have its configured value", dict(ctx, parameter=k, got=repr(got), want=repr(v)))
                return
        check(res, m, BASE, ctx)
    verify(m, {}, dict(what="defaults"))
    if w:
        res.fail("an unexpected warning with registered parameters", dict(warnings=w))
    for k, (d, good, bad) in spec.items():
        for v in good:
            for src in ("file", "keyword", "both"):
                alt = [x for x in good if x != v][0] if len(good) > 1 else v
                if src == "file":
                    m, w = build(dict(BASE, **{k: v}), {}, Sub)
                elif src == "keyword":
                    m, w = build(BASE, {k: v}, Sub)
                else:
                    m, w = build(dict(BASE, **{k: alt}), {k: v}, Sub)
                n += 1
                verify(m, {k: v}, dict(parameter=k, value=repr(v), source=src))
                if src != "both" and w:
                    res.fail("an unexpected warning for a registered parameter", dict(parameter=k, warnings=w))
        for v in bad:
            for src in ("file", "keyword"):
                m, w = build(dict(BASE, **{k: v}), {}, Sub) if src == "file" else build(BASE, {k: v}, Sub)
                n += 1
                if not isinstance(m, Exception):
                    res.fail("a subclass parameter of a wrong type was accepted", dict(parameter=k, value=repr(v), source=src))
    ks = list(spec)
    for a, b in itertools.permutations(ks, 2):
        va, vb = spec[a][1][0], spec[b][1][0]
        m, w = build(dict(BASE, **{a: va}), {b: vb}, Sub)
        n += 1
        verify(m, {a: va, b: vb}, dict(file=a, keyword=b))

    class Clash(M):
        def hook_import_files(self):
            self.subclass_parameters["u0"] = {"type": ["float"], "default": 9.0}
            self.subclass_parameters["mine"] = {"type": "int", "default": 4}
    for c in (dict(BASE), dict(BASE, u0=0.7)):
        m, w = build(c, {}, Clash)
        n += 1
        check(res, m, c, dict(what="subclass parameter named like a model parameter"))
        if not isinstance(m, Exception) and m.mine != 4:
            res.fail("subclass parameter does not have its configured value", dict(parameter="mine"))
        if not w:
            res.fail("no warning for a subclass parameter named like a model parameter", {})
    # parameters of one subclass do not leak into another class
    m, w = build(dict(BASE, p_f=1.5), {})
    n += 1
    check(res, m, BASE, dict(what="unregistered parameter"))
    if not isinstance(m, Exception) and hasattr(m, "p_f"):
        res.fail("a parameter registered by a subclass is used by another class", {})
    return n
