"""C07: multi-job expansion.

Explored: every ordered selection of up to three keys from an alphabet with values of every YAML type, as
matrix or as set, with and without ensemble, from file / in memory / keywords / command line; and every
documented invalid specification against an existing folder.  Oracle: an independent expansion.
"""
import copy
import hashlib
import itertools
import json
import os
import sys

import numpy as np

from mc import core, lib

ID = "C07"
MODE = "pure"
BOUNDS = {
    "quick": "all ordered selections of 1-3 of 9 keys (matrix and set), 1-3 values each, ensemble sizes {none,2,3}, 4 sources; 60+ invalid specifications x existing/new folder",
    "thorough": "as quick with all value-count patterns and ordered selections of up to 4 keys",
}
ASSUMPTIONS = ["job order is not part of the property, numbering is (job_000 ... in step with files and table)"]

ALPHA = {
    "f_bedload": [0.1, 0.5, 1],
    "u0": [1.0, 2, 0.75],
    "SLR": [1e-09, 0.0, 2.5e-05],
    "save_eta_grids": [True, False],
    "hb": [None, 5.5, 10],
    "verbose": [0, 2, 1],
    "seed": [7, 4294967294, 0],
    "note": ["plain text", "yes", "1e5", "null", "a: b", "# c", "", " pad ", "it's", '"q"', "3", "é", "- x", "{a}", "12:30:45", "~", "*p", "%d"],
    "resume_folder": ["/tmp/x y", "C:\\new", "0x1F", "2020-01-01"],
}
FIXED = dict(Length=10.0, itermax=1, label="off", S0=1e-05, hbx=None, flag=True, timesteps=3, path="a#b: c", num="1.5")


def cases(tier):
    out = []
    keys = list(ALPHA)
    maxk = 3 if tier == "quick" else 4
    for k in range(1, maxk + 1):
        for sel in itertools.permutations(keys, k):
            out.append(dict(kind="valid", sel=list(sel)))
    # group to keep the per-case overhead low
    grouped = [dict(kind="valid", sels=[c["sel"] for c in out[i:i + 8]], tier=tier) for i in range(0, len(out), 8)]
    grouped += [dict(kind="invalid", which=i) for i in range(len(invalid()))]
    grouped += [dict(kind="special", which=w) for w in ("ensemble_only", "ensemble_one", "cli", "edited", "resume", "string_values")]
    return grouped


def invalid():
    """(description, specification) that must be rejected."""
    base = dict(out_dir="ROOT", timesteps=1)
    out = []

    def add(what, **kw):
        out.append((what, dict(base, **kw)))
    mat = {"f_bedload": [0.1, 0.5], "u0": [1.0, 2.0]}
    st = [{"f_bedload": 0.1, "u0": 1.0}, {"f_bedload": 0.2, "u0": 2.0}]
    add("matrix and set", matrix=mat, set=st)
    add("set and matrix and ensemble", matrix=mat, set=st, ensemble=2)
    add("out_dir in matrix", matrix=dict(mat, out_dir=["x", "y"]))
    add("out_dir alone in matrix", matrix={"out_dir": ["x", "y"]})
    add("out_dir in set", set=[dict(s, out_dir="x%d" % i) for i, s in enumerate(st)])
    add("nested list", matrix={"f_bedload": [[0.1, 0.2], 0.5]})
    add("nested list second", matrix={"u0": [1.0], "f_bedload": [0.5, [0.1, 0.2]]})
    add("colon key", matrix={"a:b": [1, 2]})
    add("colon key last", matrix=dict(mat, **{"x:y": [1, 2]}))
    add("colon key in set", set=[{"a:b": 1}, {"a:b": 2}])
    add("colon key in set, last", set=[{"f_bedload": 0.1, "a:b": 1}, {"f_bedload": 0.2, "a:b": 2}])
    for k in mat:
        add("key %s in matrix and fixed" % k, matrix=mat, **{k: 1.0})
    add("seed in matrix and ensemble", matrix=dict(mat, seed=[1, 2]), ensemble=2)
    add("seed alone in matrix and ensemble", matrix=dict(seed=[1, 2]), ensemble=3)
    add("seed in set and ensemble", set=[dict(s, seed=i) for i, s in enumerate(st)], ensemble=2)
    add("fixed seed and ensemble", seed=3, ensemble=2)
    for e in (2.0, "2", [2], {"n": 2}, None, 1.5):
        add("ensemble %r" % (e,), ensemble=e)
        add("ensemble %r with matrix" % (e,), ensemble=e, matrix=mat)
        add("ensemble %r with set" % (e,), ensemble=e, set=st)
    add("matrix list", matrix=[1, 2])
    add("matrix list with ensemble", matrix=[1, 2], ensemble=2)
    add("matrix string", matrix="abc")
    add("matrix number", matrix=3)
    add("set dict", set={"f_bedload": [0.1]})
    add("set string", set="abc")
    add("set of numbers", set=[1, 2])
    add("set of lists", set=[[1], [2]])
    add("set mixed", set=[{"u0": 1.0}, 3])
    add("set different keys", set=[{"u0": 1.0}, {"h0": 1.0}])
    add("set missing key", set=[{"u0": 1.0, "h0": 2.0}, {"u0": 1.0}])
    add("set extra key", set=[{"u0": 1.0}, {"u0": 1.0, "h0": 2.0}])
    add("set third differs", set=[{"u0": 1.0}, {"u0": 2.0}, {"h0": 2.0}])
    for spec in (dict(matrix=mat), dict(set=st), dict(ensemble=2)):
        out.append(("no out_dir %s" % list(spec), dict(timesteps=1, **spec)))
    for spec in (dict(matrix=mat), dict(set=st), dict(ensemble=2), dict(matrix=mat, ensemble=2), dict(set=st, ensemble=2)):
        out.append(("existing folder %s" % sorted(spec), dict(base, _exists=True, **spec)))
        out.append(("existing folder, resume off %s" % sorted(spec), dict(base, _exists=True, resume_checkpoint=False, **spec)))
    return out


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.join(r, x) + "/"] = None
        for x in fs:
            p = os.path.join(r, x)
            with open(p, "rb") as f:
                out[p] = hashlib.md5(f.read()).hexdigest()
    return out


def strict(a, b):
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(strict(x, y) for x, y in zip(a, b))
    return a == b


def load(path):
    import yaml
    from pyDeltaRCM import shared_tools
    with open(path) as f:
        return yaml.load(f, Loader=shared_tools.custom_yaml_loader())


def dump(spec, f):
    # JSON is YAML with every string quoted
    f.write("".join("%s: %s\n" % (json.dumps(k), json.dumps(v)) for k, v in spec.items()))


def build(spec, src):
    """Construct the preprocessor from the specification through one of the documented sources."""
    from pyDeltaRCM import preprocessor
    if src == "file":
        with open("in.yml", "w") as f:
            dump(spec, f)
        before = open("in.yml", "rb").read()
        pp = preprocessor.Preprocessor("in.yml")
        assert_same(before == open("in.yml", "rb").read())
        return pp
    if src == "dict":
        mine = copy.deepcopy(spec)
        pp = preprocessor.Preprocessor(mine)
        assert_same(strict(mine, spec) and list(mine) == list(spec))
        return pp
    if src == "kwargs":
        multi = {k: copy.deepcopy(v) for k, v in spec.items() if k in ("matrix", "set", "ensemble", "out_dir")}
        mine = copy.deepcopy(multi)
        with open("in.yml", "w") as f:
            dump({k: v for k, v in spec.items() if k not in multi}, f)
        pp = preprocessor.Preprocessor("in.yml", **mine)
        assert_same(strict(mine, multi))
        return pp
    with open("in.yml", "w") as f:
        dump(spec, f)
    old = sys.argv
    sys.argv = ["pyDeltaRCM", "--config", "in.yml"]
    try:
        return preprocessor.PreprocessorCLI()
    finally:
        sys.argv = old


class Modified(Exception):
    pass


def assert_same(ok):
    if not ok:
        raise Modified()


LAST = []


def check(res, pp, spec, expected, keys, nens, ctx, src):
    """expected: list of settings dicts (without seed of the ensemble)."""
    fixed = {k: v for k, v in spec.items() if k not in ("matrix", "set", "ensemble", "out_dir")}
    if src == "cli":
        fixed.update(config="in.yml", dryrun=False)
    root = spec["out_dir"]
    n = len(expected) * (nens or 1)
    cfgs, files = list(pp.config_list), list(pp.file_list)
    if len(cfgs) != n or len(files) != n:
        return res.fail("the expansion does not give the specified number of jobs", dict(ctx, got=len(cfgs), want=n))
    want = [dict(fixed, **e) for e in expected]
    counts = [0] * len(want)
    seeds = [[] for _ in want]
    names = set()
    rows = []
    for i, (c, f) in enumerate(zip(cfgs, files)):
        d = os.path.join(root, "job_%03d" % i)
        if os.path.normpath(str(c["out_dir"])) != os.path.normpath(d) or os.path.normpath(os.path.dirname(str(f))) != os.path.normpath(d):
            return res.fail("job folders are not one per job, in step with the jobs", dict(ctx, job=i, got=[c["out_dir"], str(f)]))
        names.add(os.path.normpath(d))
        back = load(str(f))
        mem = dict(c)
        for what, cc in (("written configuration", back), ("configuration", mem)):
            if os.path.normpath(str(cc.pop("out_dir"))) != os.path.normpath(d):
                return res.fail("the %s of a job names another folder" % what, dict(ctx, job=i))
        if not strict(back, {k: v for k, v in mem.items()}):
            bad = [k for k in set(back) | set(mem) if k not in back or k not in mem or not strict(back[k], mem[k])]
            return res.fail("a written job configuration does not read back as the job's settings",
                            dict(ctx, job=i, key=bad[:3], got=[back.get(k) for k in bad[:3]], want=[mem.get(k) for k in bad[:3]]))
        rows.append([os.path.basename(d)] + [str(mem[k]) for k in keys] + ([str(mem["seed"])] if nens else []))
        s = None
        if nens:
            s = mem.pop("seed", None)
            if s is None or isinstance(s, bool) or not 0 <= int(s) < 2 ** 32:
                return res.fail("an ensemble job has no valid seed", dict(ctx, job=i, seed=s))
        hit = [j for j, w in enumerate(want) if strict(mem, w) and counts[j] < (nens or 1)]
        if not hit:
            bad = [k for k in set(mem) | set(want[0]) if not any(k in w and k in mem and strict(mem[k], w[k]) for w in want)]
            return res.fail("a job does not have the settings of any specified combination", dict(ctx, job=i, keys=bad[:4], got=[mem.get(k) for k in bad[:4]]))
        counts[hit[0]] += 1
        seeds[hit[0]].append(None if s is None else int(s))
    if any(c != (nens or 1) for c in counts):
        return res.fail("not every specified combination gets its jobs", dict(ctx, counts=counts))
    if nens and any(len(set(s)) != nens for s in seeds):
        return res.fail("replicates of an ensemble do not have distinct seeds", dict(ctx, seeds=seeds))
    if nens:
        # newly drawn: no seed comes back in every one of several expansions
        LAST.append(set(x for s in seeds for x in s))
        del LAST[:-3]
        if len(LAST) == 3 and set.intersection(*LAST):
            return res.fail("the seeds of an ensemble are not newly drawn", dict(ctx, repeated=sorted(set.intersection(*LAST))[:3]))
    if len(names) != n or sorted(os.path.normpath(os.path.join(root, x)) for x in os.listdir(root) if os.path.isdir(os.path.join(root, x))) != sorted(names):
        return res.fail("the job folders on disk are not exactly the jobs", ctx)
    with open(os.path.join(root, "jobs_parameters.txt"), encoding=None) as f:
        lines = f.read().split("\n")
    head = [h.strip() for h in lines[0].split(",")]
    tk = head[1:]
    if head[0] != "job_id" or sorted(tk) != sorted(list(keys) + (["seed"] if nens else [])):
        return res.fail("headings of the job table are not the expanded keys", dict(ctx, got=head))
    order = list(keys) + (["seed"] if nens else [])
    body = [l for l in lines[1:n + 1]]
    if len(lines) < n + 1:
        return res.fail("the job table does not list every job", ctx)
    for i, l in enumerate(body):
        cells = l.split(",")
        w = [rows[i][0]] + [rows[i][1 + order.index(k)] for k in tk]
        if cells != w:
            return res.fail("the job table does not list the job's values under the matching headings", dict(ctx, job=i, got=cells, want=w))
    res.traces += n


def expand(spec):
    if "matrix" in spec:
        ks = list(spec["matrix"])
        return ks, [dict(zip(ks, v)) for v in itertools.product(*[spec["matrix"][k] for k in ks])]
    return list(spec["set"][0]), [dict(s) for s in spec["set"]]


def trial(res, spec, src, ctx, states):
    nens = spec.get("ensemble")
    spec = dict(spec, out_dir="root")
    import shutil
    shutil.rmtree("root", ignore_errors=True)
    keys, exp = expand(spec)
    try:
        pp = build(spec, src)
    except Modified:
        return res.fail("the user's input was modified by the expansion", dict(ctx, source=src))
    res.transitions += 1
    check(res, pp, spec, exp, keys, nens, dict(ctx, source=src), src)
    states.add(core.digest([sorted(map(str, c.items())) for c in exp]))


def run_case(case):
    np.random.seed(12345)
    del LAST[:]
    res = core.Result()
    states = set()
    srcs = ["file", "dict", "kwargs", "cli"]
    if case["kind"] == "valid":
        n = 0
        for sel in case["sels"]:
            fixed = {k: v for k, v in FIXED.items()}
            patterns = [(2, 3, 2, 2), (3, 1, 2, 1)] if case["tier"] == "quick" else list(itertools.product((1, 2, 3), repeat=len(sel)))
            for pat in patterns:
                n += 1
                vals = {}
                for j, k in enumerate(sel):
                    a = ALPHA[k]
                    off = (n * 5 + j) % len(a)
                    vals[k] = [a[(off + t) % len(a)] for t in range(min(pat[j], len(a)))]
                ens = [None, 2, 3][n % 3] if "seed" not in sel else None
                spec = dict(fixed, matrix=vals)
                m = max(len(v) for v in vals.values())
                sset = [{k: vals[k][i % len(vals[k])] for k in sel} for i in range(m)]
                # entries of a set may list their keys in any order
                if len(sset) > 1:
                    sset[1] = dict(reversed(list(sset[1].items())))
                spec2 = dict(fixed, set=sset)
                if ens:
                    spec["ensemble"] = spec2["ensemble"] = ens
                trial(res, spec, srcs[n % 4], dict(matrix=vals, ensemble=ens), states)
                trial(res, spec2, srcs[(n + 1) % 4], dict(set=sset, ensemble=ens), states)
                if res.violations:
                    return res
    elif case["kind"] == "invalid":
        what, spec = invalid()[case["which"]]
        spec = dict(spec)
        exists = spec.pop("_exists", False)
        for pre in ((True,) if exists else (False,)):
            for src in srcs:
                import shutil
                shutil.rmtree("w", ignore_errors=True)
                os.mkdir("w")
                os.chdir("w")
                try:
                    if pre:
                        os.makedirs("ROOT/job_000")
                        for f in ("jobs_parameters.txt", "job_000/job_000.yml", "job_000/pyDeltaRCM_output.nc", "note"):
                            with open("ROOT/" + f, "w") as fh:
                                fh.write("precious " + f)
                    else:
                        os.makedirs("OTHER")
                        with open("OTHER/f", "w") as fh:
                            fh.write("x")
                    before = tree(".")
                    res.transitions += 1
                    try:
                        build(spec, src)
                        res.fail("a contradictory or invalid specification was accepted: " + what, dict(source=src, spec=str(spec)))
                    except Modified:
                        res.fail("the user's input was modified by the expansion", dict(source=src, spec=str(spec)))
                    except (ValueError, TypeError, FileExistsError, AttributeError, KeyError):
                        pass
                    after = tree(".")
                    gone = [k for k in before if after.get(k, "gone") != before[k]]
                    new = [k for k in after if k not in before and pre and k.startswith("./ROOT")]
                    if gone or new:
                        res.fail("an existing job folder was touched by a rejected specification", dict(source=src, what=what, files=gone + new))
                    states.add(core.digest((what, pre, src)))
                finally:
                    os.chdir("..")
    else:
        special(res, case["which"], states)
    res.states = len(states)
    res.outcomes = states
    res.sample = case
    return res


def special(res, which, states):
    import shutil
    from pyDeltaRCM import preprocessor
    if which == "ensemble_only":
        for n, src in itertools.product((2, 3, 5), ("file", "dict", "kwargs", "cli")):
            shutil.rmtree("root", ignore_errors=True)
            spec = dict(FIXED, ensemble=n, out_dir="root")
            pp = build(spec, src)
            check(res, pp, spec, [{}], [], n, dict(ensemble=n, source=src), src)
            states.add((n, src))
    elif which == "ensemble_one":
        for src in ("file", "dict", "kwargs", "cli"):
            shutil.rmtree("root", ignore_errors=True)
            spec = dict(FIXED, ensemble=1, out_dir="root", matrix={"u0": [1.0, 2.0]})
            pp = build(spec, src)
            check(res, pp, spec, [{"u0": 1.0}, {"u0": 2.0}], ["u0"], None, dict(ensemble=1, source=src), src)
            states.add(src)
    elif which == "cli":
        for sel in itertools.permutations(["u0", "SLR", "save_eta_grids"], 2):
            trial(res, dict(FIXED, matrix={k: ALPHA[k] for k in sel}), "cli", dict(cli=sel), states)
    elif which == "edited":
        # many jobs: three-digit numbering
        trial(res, dict(FIXED, matrix={"u0": [float(i + 1) for i in range(13)], "f_bedload": [i / 10.0 for i in range(9)]}), "file", dict(many=117), states)
    elif which == "string_values":
        for s in ALPHA["note"] + ALPHA["resume_folder"] + ["a\nb", "tab\there", "ends:", "[1", "1_000", "1.", ".5", "0o7", "NaN", ".inf", "True", "n", "=", "<<", "?", "a # b", "x: 'y'"]:
            for src in ("dict", "file"):
                shutil.rmtree("root", ignore_errors=True)
                spec = dict(FIXED, txt=s, out_dir="root", matrix={"u0": [1.0, 2.0]})
                try:
                    pp = build(spec, src)
                except Modified:
                    res.fail("the user's input was modified by the expansion", dict(txt=s))
                    continue
                check(res, pp, spec, [{"u0": 1.0}, {"u0": 2.0}], ["u0"], None, dict(txt=s, source=src), src)
                states.add((s, src))
    elif which == "resume":
        for spec0 in (dict(matrix={"u0": [1.0, 2.0]}), dict(set=[{"u0": 1.0}, {"u0": 2.0}])):
            shutil.rmtree("root", ignore_errors=True)
            build(dict(FIXED, out_dir="root", **copy.deepcopy(spec0)), "file")
            with open("root/job_000/keep", "w") as f:
                f.write("x")
            spec = dict(FIXED, out_dir="root", resume_checkpoint=True, **copy.deepcopy(spec0))
            pp = build(spec, "file")
            check(res, pp, spec, [{"u0": 1.0}, {"u0": 2.0}], ["u0"], None, dict(resume=True), "file")
            if not os.path.exists("root/job_000/keep"):
                res.fail("resuming a batch removed files of a job folder")
            states.add(str(spec0))
