"""C20: exactly the selected figures, grids and metadata are written.

Explored: all subsets of the 7 figure switches x sequential on/off; all histories of setting two switches and the numbering mode on or
off between saves (every pair of switches, up to the length bound), with resumes; all subsets of the 9 grid switches x metadata x
figures.  The picture encoder at the end of the figure stage (Figure.savefig) is a stand-in that stores the plotted values instead,
so that every file is checked for what it shows; some histories keep the real encoder.  Oracle: automaton of (switches, numbering,
save index) -> set of files and their contents.
"""
import glob
import itertools
import os
import pickle

import numpy as np

from mc import core, lib

ID = "C20"
MODE = "pure"
FIGS = dict(eta="eta", stage="stage", depth="depth", discharge="qw", velocity="uw", sedflux="qs", sandfrac="sand_frac")
NAMES = list(FIGS)
GR = ["save_eta_grids", "save_stage_grids", "save_depth_grids", "save_discharge_grids", "save_velocity_grids", "save_sedflux_grids",
      "save_sandfrac_grids", "save_discharge_components", "save_velocity_components"]
VARS = [["eta"], ["stage"], ["depth"], ["discharge"], ["velocity"], ["sedflux"], ["sandfrac"], ["discharge_x", "discharge_y"], ["velocity_x", "velocity_y"]]
META = {"L0", "N0", "CTR", "dx", "h0", "hb", "cell_type", "H_SL", "f_bedload", "C0_percent", "u0"}
BOUNDS = {
    "quick": "128 figure subsets x 2 numbering modes, 3 saves; 21 pairs of switches x 4 initial settings: all 6-symbol histories of 2 settings and saves, for 7 single switches all 5-symbol histories of 3 settings with a resume at each point; 512 grid subsets x metadata x figures; cadence 1 and 2",
    "thorough": "pairs with histories of 3 settings, single switches with 4",
}
ASSUMPTIONS = ["Figure.savefig is replaced by a stand-in storing the plotted values (16 histories keep the real encoder)",
               "routing is left out by a subclass; the fields are changed by hand before each step"]
RULE = "states: distinct (switches, files) states; transitions: saves checked"


def cases(tier):
    deep = tier != "quick"
    out = []
    for mask in range(128):
        out.append(dict(kind="subset", mask=mask))
    for a, b in itertools.combinations(range(7), 2):
        for first in range(6):
            out.append(dict(kind="pair", sw=[a, b], first=first, n=3 if deep else 2))
    for a in range(7):
        out.append(dict(kind="single", sw=[a], n=4 if deep else 3))
    for part in range(16):
        out.append(dict(kind="grids", part=part))
    for k in range(16):
        out.append(dict(kind="encoder", k=k))
    return out


_cls = {}


def classes():
    if not _cls:
        class Still(lib.DeltaModel()):
            def route_water(self):
                pass

            def route_sediment(self):
                pass

            def hook_output_data(self):
                # what the figures of this save have to show
                if self.__dict__.get("_pending_shapes"):
                    k = self._time_iter
                    for n, f in enumerate(FIGS.values()):
                        getattr(self, f)[:] = (np.arange(self.L * self.W).reshape(self.L, self.W) * (n + 1) + 100 * k) % 97
                    self._shown = {f: np.array(getattr(self, f), dtype=float) for f in FIGS.values()}
        _cls["still"] = Still
    return _cls


class Encoder:
    """stand-in for Figure.savefig"""

    def __enter__(self):
        import matplotlib.figure as mf
        self.mf, self.orig = mf, mf.Figure.savefig

        def savefig(fig, fname, *a, **k):
            data = []
            for ax in fig.axes[:1]:
                for c in list(ax.collections) + list(ax.images):
                    arr = c.get_array()
                    if arr is not None:
                        data.append(np.asarray(arr, dtype=float).ravel())
            with open(fname, "wb") as f:
                pickle.dump(data, f)
        mf.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.mf.Figure.savefig = self.orig


class World:
    def __init__(self, r, case, on, seq, d, every=1, real=False, **kw):
        self.r, self.case, self.dir, self.every, self.real = r, case, d, every, real
        self.cfg = dict(lib.TINY, save_figs_sequential=seq, save_dt=0 if every == 1 else 400, save_checkpoint=True, **kw)
        self.initial = dict(on=set(on), seq=seq)
        self.log = [sorted(on), seq]
        self.files = {}
        self.index = 0
        self.start(False)

    def start(self, resume):
        self.on, self.seq = set(self.initial["on"]), self.initial["seq"]
        self.m = classes()["still"](out_dir=self.dir, **dict(self.cfg, resume_checkpoint=resume, **{"save_%s_figs" % n: n in self.on for n in NAMES}))
        if not resume:
            self.steps = 0
            # the state at the beginning is saved too
            self.saved({f: np.array(getattr(self.m, f), dtype=float) for f in FIGS.values()})
        self.check("starting" if not resume else "resuming")

    def set(self, name, value):
        self.log.append((name, value))
        if name == "seq":
            self.seq = self.m.save_figs_sequential = value
        else:
            setattr(self.m, "save_%s_figs" % name, value)
            (self.on.add if value else self.on.discard)(name)

    def resume(self):
        self.log.append("resume")
        lib.dispose(self.m)
        self.start(True)

    def saved(self, shown):
        for n in self.on:
            self.files["%s_%s.png" % (n, "%05d" % self.index if self.seq else "latest")] = (n, shown[FIGS[n]])
        self.index += 1

    def step(self):
        self.log.append("step")
        m = self.m
        m._pending_shapes = True
        m.update()
        self.steps += 1
        if self.every == 1 or self.steps % self.every == 0:
            self.saved(m._shown)
        self.check("a save")
        self.r.transitions += 1

    def check(self, what):
        r = self.r
        got = {os.path.basename(p) for p in glob.glob(os.path.join(self.m.prefix, "*"))}
        pics = {g for g in got if g.endswith(".png")}
        if pics != set(self.files):
            r.fail("figures after %s: missing %s, unexpected %s" % (what, sorted(set(self.files) - pics), sorted(pics - set(self.files))),
                   dict(case=self.case, history=self.log))
            self.files = {k: v for k, v in self.files.items() if k in pics}
        for k, (n, want) in self.files.items():
            p = os.path.join(self.m.prefix, k)
            if self.real:
                if open(p, "rb").read(8) != b"\x89PNG\r\n\x1a\n":
                    r.fail("%s is no picture" % k, dict(case=self.case, history=self.log))
                continue
            data = pickle.load(open(p, "rb"))
            if not any(d.size == want.size and np.allclose(d, want.ravel(), rtol=1e-5, atol=1e-6) for d in data):
                r.fail("figure %s after %s does not show the %s of its save" % (k, what, FIGS[n]), dict(case=self.case, history=self.log))
        nc = {g for g in got if g.endswith(".nc")}
        if nc and not any(self.cfg.get(g) for g in GR + ["save_metadata"]):
            r.fail("an output file is written although nothing is selected", dict(case=self.case, history=self.log))
        r.extra["figure files checked"] += len(self.files)

    def key(self):
        return (tuple(sorted(self.on)), self.seq, tuple(sorted(self.files)))


def run_case(case):
    r = core.Result()
    states = set()
    n = 0

    def fresh():
        nonlocal n
        n += 1
        return "run%d" % n

    def done(w):
        states.add(w.key())
        r.traces += 1
        lib.dispose(w.m)

    quiet = dict(save_metadata=False)
    if case["kind"] == "subset":
        on = [NAMES[i] for i in range(7) if case["mask"] >> i & 1]
        with Encoder():
            for seq in (True, False):
                for every in (1, 2):
                    w = World(r, case, on, seq, fresh(), every, **quiet)
                    for _ in range(2 * every):
                        w.step()
                    done(w)
    elif case["kind"] == "pair":
        sw = [NAMES[i] for i in case["sw"]] + ["seq"]
        sets = list(itertools.product(sw, (True, False)))
        with Encoder():
            for init in itertools.product((False, True), repeat=2):
                for hist in itertools.product(range(len(sets)), repeat=case["n"] - 1):
                    w = World(r, case, [s for s, v in zip(sw, init) if v], bool(case["first"] % 2), fresh(), **quiet)
                    for k, h in enumerate((case["first"],) + hist):
                        w.set(*sets[h])
                        if k:
                            w.step()
                    done(w)
                    if len(r.violations) > 4:
                        return r
    elif case["kind"] == "single":
        sw = [NAMES[case["sw"][0]], "seq"]
        sets = list(itertools.product(sw, (True, False)))
        with Encoder():
            for hist in itertools.product(range(len(sets)), repeat=case["n"]):
                for res in range(case["n"] + 1):
                    w = World(r, case, [sw[0]] if hist[0] % 2 else [], True, fresh(), **quiet)
                    for k, h in enumerate(hist):
                        w.set(*sets[h])
                        w.step()
                        if k + 1 == res:
                            w.resume()
                    done(w)
                    if len(r.violations) > 4:
                        return r
    elif case["kind"] == "grids":
        with Encoder():
            for mask in range(case["part"], 512, 16):
                for meta in (False, True):
                    for fig in (False, True):
                        sel = [mask >> i & 1 == 1 for i in range(9)]
                        w = World(r, case, ["velocity"] if fig else [], False, fresh(), save_metadata=meta, **dict(zip(GR, sel)))
                        w.step()
                        p = os.path.join(w.m.prefix, "pyDeltaRCM_output.nc")
                        any_ = any(sel) or meta
                        if os.path.exists(p) != any_:
                            r.fail("output file %s" % ("missing" if any_ else "written although nothing is selected"), dict(case=case, grids=mask, metadata=meta))
                        elif any_:
                            nc = lib.read_nc(p)
                            want = {v for s, vs in zip(sel, VARS) if s for v in vs}
                            got = set(nc["vars"]) - {"time", "x", "y"}
                            if got != want:
                                r.fail("grids in the output file: %s, selected %s" % (sorted(got), sorted(want)), dict(case=case, grids=mask, metadata=meta))
                            if not META <= set(nc["meta"]):
                                r.fail("metadata missing from the output file: %s" % sorted(META - set(nc["meta"])), dict(case=case, grids=mask, metadata=meta))
                            if len(nc["vars"]["time"]) != 2:
                                r.fail("%d records after two saves" % len(nc["vars"]["time"]), dict(case=case, grids=mask, metadata=meta))
                        states.add((mask, meta, fig))
                        done(w)
    else:
        k = case["k"]
        w = World(r, case, NAMES[k % 7:k % 7 + 1], k < 8, fresh(), real=True, **quiet)
        w.step()
        w.set(NAMES[(k + 3) % 7], True)
        w.set(NAMES[k % 7], False)
        w.step()
        done(w)
    r.states = len(states)
    r.outcomes = {core.digest(repr(s)) for s in states}
    r.sample = dict(case=case, states=len(states))
    return r
