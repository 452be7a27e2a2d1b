"""Drives the compiled model stage by stage against the reference model (mc/ref.py).

The reference is explored: at every random draw it branches over all directions of positive probability.  The uniform deviates
that lead the real generator to the same choices are then forced into the compiled model, the real stage runs, and its fields
are compared with the reference at the documented hooks.
"""
import numpy as np

from mc import lib, ref

FIELDS = ("eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "Vp_dep_sand", "Vp_dep_mud", "sand_frac", "active_layer")
GRAV = 9.81
DELTA = 5e-5


class Choice:
    """Choice sequence of the reference and the uniform deviates that reproduce it.

    mode 'mid' takes the middle of the interval of the chosen alternative, 'lo'/'hi' its ends (so that a changed probability
    makes the implementation go elsewhere)."""

    def __init__(self, prefix=(), mode="mid", script=None):
        self.prefix, self.mode, self.script = list(prefix), mode, script
        self.points, self.us = [], []

    def __call__(self, prob, tag, skip=()):
        prob = np.asarray(prob, dtype=float)
        cum = np.cumsum(prob)
        if not cum[-1] > 0:
            raise ref.Ambiguous("no direction")
        alts = sorted([i for i in range(len(prob)) if prob[i] > 1e-3 * cum[-1] and i not in skip], key=lambda i: (-round(prob[i] / cum[-1], 6), i))
        if not alts:
            raise ref.Ambiguous("no direction")
        pos = len(self.points)
        c = self.prefix[pos] if pos < len(self.prefix) else (self.script(pos, len(alts), tag) if self.script else 0)
        if not 0 <= c < len(alts):
            raise RuntimeError("choice %d of %d at point %d" % (c, len(alts), pos))
        k = alts[c]
        lo, hi = cum[k] - prob[k], cum[k]
        if self.mode == "lo":
            u = lo + min(DELTA, prob[k] / 2)
        elif self.mode == "hi":
            u = hi - min(DELTA, prob[k] / 2)
        else:
            u = (lo + hi) / 2
        self.us.append(u / cum[-1])
        self.points.append((len(alts), c, k, None, tag))
        return k


HOOKS = ["hook_init_water_iteration", "hook_run_water_iteration", "hook_compute_free_surface", "hook_finalize_water_iteration",
         "hook_init_sediment_iteration", "hook_route_all_sand_parcels", "hook_topo_diffusion", "hook_route_all_mud_parcels",
         "hook_finalize_timestep", "hook_after_finalize_timestep"]
_cls = None


def probe_class():
    global _cls
    if _cls is None:
        M = lib.DeltaModel()

        def mk(name):
            def hook(self, *a):
                mon = self.__dict__.get("_mon")
                if mon is not None:
                    getattr(mon, name, lambda *x: None)(*a)
            return hook
        _cls = type("Probe", (M,), {h: mk(h) for h in HOOKS})
    return _cls


def build(cfg, updates=0):
    m = probe_class()(out_dir="phys", **cfg)
    for _ in range(updates):
        m.update()
    return m


def constants(m, cfg):
    """Everything the reference needs, from the configuration."""
    c = dict(lib.TINY, **cfg)
    dx, u0, h0 = float(c["dx"]), float(c["u0"]), float(c["h0"])
    N0 = len(m.inlet)
    C0 = c["C0_percent"] / 100.0
    V0 = h0 * dx * dx
    dVs = 0.1 * N0 ** 2 * V0
    Qw0 = u0 * h0 * N0 * dx
    dt = dVs / (Qw0 * C0)
    th = c.get("theta_water", 1.0)
    step = c.get("stepmax") or 2 * (m.L + m.W)
    itermax = c["itermax"]
    return dict(dx=dx, u0=u0, h0=h0, S0=c["S0"], inlet=np.array(m.inlet), L0=int(m.L0), CTR=int(m.CTR), cell_type=np.array(m.cell_type),
                Np_water=int(c["Np_water"]), Np_sed=int(c["Np_sed"]), f_bedload=c["f_bedload"], Qp_water=Qw0 / c["Np_water"], qw0=u0 * h0,
                qs0=u0 * h0 * C0, dt=dt, Vp_sed=dVs / c["Np_sed"], gamma=GRAV * c["S0"] * dx / u0 ** 2, dry_depth=min(0.1, 0.1 * h0), u_max=2 * u0,
                theta_water=th, theta_sand=th * c.get("coeff_theta_sand", 2.0), theta_mud=th * c.get("coeff_theta_mud", 1.0),
                stepmax=int(step), omega_sfc=c.get("omega_sfc", 0.1), omega_flow=c.get("omega_flow", 0.9), omega_iter=2.0 / max(1, itermax),
                Nsmooth=int(c.get("Nsmooth", 10)), Csmooth=c.get("Csmooth", 0.9), beta=c.get("beta", 3), lambda_=c.get("sed_lag", 1.0),
                U_dep_mud=c.get("coeff_U_dep_mud", 0.3) * u0, U_ero_sand=c.get("coeff_U_ero_sand", 1.05) * u0, U_ero_mud=c.get("coeff_U_ero_mud", 1.5) * u0,
                itermax=itermax, alpha=c.get("alpha", 0.1), N_cross=int(round(dVs / V0)))


def state(m, const):
    s = dict(const)
    s["lambda"] = const["lambda_"]
    for f in FIELDS:
        s[f] = np.array(getattr(m, f), copy=True)
    for f in ("mod_water_weight", "mod_sed_weight", "mod_erosion"):
        s[f] = np.array(getattr(m, f), copy=True)
    s["H_SL"] = float(m.H_SL)
    return s


# ------------------------------------------------------------------------------------------------ crafted states
def noise(seed, shape):
    return np.random.RandomState(seed).uniform(-1, 1, size=shape)


def craft(m, const, kind, seed=0):
    """Dictionary of fields describing a (physically consistent) model state of the given kind."""
    L, W = m.eta.shape
    ct = const["cell_type"]
    H = float(m.H_SL)
    h0, u0 = const["h0"], const["u0"]
    ocean = (ct != -2)
    eta = np.array(m.eta, dtype=float)
    stage = np.array(m.stage, dtype=float)
    qx = np.array(m.qx, dtype=float)
    qy = np.array(m.qy, dtype=float)
    rr, cc = np.mgrid[0:L, 0:W]
    n1, n2, n3, n4 = (noise(seed * 10 + k, (L, W)) for k in range(4))
    if kind == "plain":
        pass
    elif kind == "shoal":                                  # bars, some emergent, wet everywhere else
        eta = np.where(ocean & (rr > 0), H - h0 * (0.5 + 0.55 * n1), eta)
        stage = np.where(ocean, np.maximum(H, eta) + 0.02 * h0 * (1 + n2), stage)
        qx = np.where(ocean, u0 * h0 * (0.5 + 0.5 * n3), 0)
        qy = np.where(ocean, u0 * h0 * 0.6 * n4, 0)
    elif kind == "slope":                                  # delta top: sloping water surface, no flow yet
        eta = np.where(ocean & (rr > 0), H - 0.4 * h0 + 0.1 * h0 * n1, eta)
        stage = np.where(ocean, H + 0.05 * h0 * (L - rr) / L * (1 + 0.3 * n2), stage)
        qx, qy = np.zeros((L, W)), np.zeros((L, W))
    elif kind == "swirl":                                  # circulating flow: parcels revisit cells
        eta = np.where(ocean & (rr > 0), H - h0 * (0.7 + 0.2 * n1), eta)
        stage = np.where(ocean, H + 0.15 * h0 + 0.1 * h0 * n2, stage)
        r0, c0 = L * 0.55, W * 0.5
        qx = np.where(ocean & (rr > 1), u0 * h0 * (cc - c0) / W * 2 + 0.03 * n3, qx)
        qy = np.where(ocean & (rr > 1), -u0 * h0 * (rr - r0) / L * 2 + 0.03 * n4, 0)
    elif kind == "calmswirl":                              # the same at sea level
        eta = np.where(ocean & (rr > 0), H - h0 * (0.7 + 0.2 * n1), eta)
        stage = np.where(ocean, H + 0.03 * h0 * (1 + n2), stage)
        r0, c0 = L * 0.55, W * 0.5
        qx = np.where(ocean & (rr > 1), u0 * h0 * (cc - c0) / W * 2 + 0.03 * n3, qx)
        qy = np.where(ocean & (rr > 1), -u0 * h0 * (rr - r0) / L * 2 + 0.03 * n4, 0)
    elif kind == "drybar":                                 # a dry bar across the basin with gaps, stagnant patches
        bar = (rr == L // 2) & (cc % 4 != 0)
        eta = np.where(ocean & (rr > 0), np.where(bar, H + 0.02 * h0 + 0.03 * h0 * n1, H - h0 * (0.6 + 0.3 * n1)), eta)
        stage = np.where(ocean, H + 0.04 * h0 * (1 + n2), stage)
        qx = np.where(ocean & (n3 > -0.4), u0 * h0 * (0.4 + 0.4 * n3), 0)
        qy = np.where(ocean & (n3 > -0.4), u0 * h0 * 0.5 * n4, 0)
    elif kind == "swift":                                  # shallow, fast: erosion
        eta = np.where(ocean & (rr > 0), H - h0 * (0.45 + 0.2 * n1), eta)
        stage = np.where(ocean, H + 0.02 * h0 * (1 + n2), stage)
        qx = np.where(ocean, u0 * h0 * (0.9 + 0.3 * n3), 0)
        qy = np.where(ocean, u0 * h0 * 0.4 * n4, 0)
    elif kind == "slack":                                  # deep and slow: settling
        eta = np.where(ocean & (rr > 0), H - h0 * (1.2 + 0.3 * n1), eta)
        stage = np.where(ocean, H + 0.02 * h0 * (1 + n2), stage)
        qx = np.where(ocean, u0 * h0 * (0.2 + 0.15 * n3), 0)
        qy = np.where(ocean, u0 * h0 * 0.1 * n4, 0)
    elif kind == "sideswirl":                              # circulation along both sides of a narrow basin
        eta = np.where(ocean & (rr > 0), H - h0 * (0.7 + 0.2 * n1), eta)
        stage = np.where(ocean, H + 0.15 * h0 + 0.1 * h0 * n2, stage)
        c0 = np.where(cc < W / 2, 2.0, W - 3.0)
        out = np.where(cc < W / 2, -1.0, 1.0)
        band = ocean & (rr > 1)
        qx = np.where(band, u0 * h0 * (cc - c0) / 4 * out * np.where(rr > L * 0.8, -1, 1) + 0.03 * n3, qx)
        qy = np.where(band, u0 * h0 * np.where(rr < L * 0.45, 0.5 * out, np.where(rr > L * 0.7, -0.3 * out, 0.1 * n4)), 0)
    elif kind == "plateau":                                # delta top above sea level, shallow sheet flow, steep shore
        top = rr < L * 0.65
        eta = np.where(ocean & (rr > 0), np.where(top, H + h0 * (0.25 + 0.1 * n1), H - h0 * (0.6 + 0.2 * n1)), eta)
        stage = np.where(ocean, np.where(top, eta + 0.13 * h0 * (1 + 0.5 * n2) + 0.03 * (h0 < 0.9), H + 0.02 * h0 * (1 + n2)), stage)
        qx = np.where(ocean, u0 * h0 * (0.06 + 0.05 * n3), 0)
        qy = np.where(ocean, u0 * h0 * 0.04 * n4, 0)
    elif kind == "slowtop":                                # the same with slow and very shallow water
        top = rr < L * 0.65
        eta = np.where(ocean & (rr > 0), np.where(top, H + h0 * (0.15 + 0.05 * n1), H - h0 * (0.6 + 0.2 * n1)), eta)
        stage = np.where(ocean, np.where(top, eta + 0.05 * h0 + min(0.1, 0.1 * h0) * (0.9 + 0.5 * n2), H + 0.02 * h0 * (1 + n2)), stage)
        qx = np.where(ocean, u0 * h0 * (0.015 + 0.01 * n3), 0)
        qy = np.where(ocean, u0 * h0 * 0.01 * n4, 0)
    elif kind in ("pool", "highpool"):                     # standing water: every direction is possible everywhere
        eta = np.where(ocean & (rr > 0), H - 0.7 * h0, eta)
        stage = np.where(ocean, H + (0.2 if kind == "highpool" else 0.0), stage)
        qx, qy = np.zeros((L, W)), np.zeros((L, W))
    else:
        raise KeyError(kind)
    stage = np.where(ocean, np.maximum(stage, H), stage)
    inl = const["inlet"]
    if kind not in ("plain", "pool", "highpool"):
        qx[0, inl], qy[0, inl] = const["qw0"], 0
        eta[0, inl] = stage[0, inl] - h0
    depth = np.maximum(stage - eta, 0)
    depth[ct == -2] = 0
    if kind == "plain":
        depth = np.array(m.depth, dtype=float)
    # keep clear of the dry limit
    qw = np.hypot(qx, qy)
    f32 = {k: np.asarray(v, dtype=np.float32) for k, v in dict(eta=eta, stage=stage, depth=depth, qx=qx, qy=qy, qw=qw).items()}
    ux, uy, uw = ref.velocity(f32["qx"].astype(float), f32["qy"].astype(float), f32["qw"].astype(float), f32["depth"].astype(float), const["dry_depth"], const["u_max"])
    f32.update(ux=ux.astype(np.float32), uy=uy.astype(np.float32), uw=uw.astype(np.float32))
    z = np.zeros((L, W), np.float32)
    f32.update(qs=z, Vp_dep_sand=z, Vp_dep_mud=z)
    return f32


def install(m, fields):
    for k, v in fields.items():
        cur = getattr(m, k)
        setattr(m, k, np.array(v, dtype=cur.dtype, copy=True))


def cmp(r, what, got, want, rtol=3e-5, atol=3e-6, mask=None):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape == want.shape and mask is not None:
        got, want = np.where(mask, got, 0), np.where(mask, want, 0)
    if lib.close(got, want, rtol=rtol, atol=atol):
        return True
    r.fail("%s differs from the reference: %s" % (what, lib.where_not_close(got, want, rtol=rtol, atol=atol)))
    return False


class WaterMonitor:
    """Installs itself on a model for one execution of route_water."""

    def __init__(self, m, const, choice, r, aspects, first_step, where=""):
        self.m, self.const, self.ch, self.r, self.aspects, self.first, self.where = m, const, choice, r, aspects, first_step, where
        self.it = -1
        self.walk = None
        self.summary = []
        self.events = r.extra

    def hook_init_water_iteration(self):
        self.end_iteration()
        self.it += 1

    def hook_run_water_iteration(self):
        self.s = s = state(self.m, self.const)
        self.ch.us = []
        # the weights the model will use now: does it (as recorded in the known findings) let parcels leave the first row?
        s["closed_upstream"] = not self.leaks()
        self.walk = ref.WaterWalk(s, self.ch)
        lib.force_uniforms(self.ch.us)
        self.events["loops"] += self.walk.loops
        self.events["invalidated"] += self.walk.valid.count(False)
        self.events["reached boundary"] += sum(1 for p in self.walk.path if p[-1] is not None and s["cell_type"][p[-1]] == -1)
        self.summary.append(tuple(tuple(p) for p in self.walk.path))

    def leaks(self):
        """Whether this implementation gives weight to directions out of the first row (asked once per model)."""
        m = self.m
        if not hasattr(m, "_mc_leaks"):
            keep, keepw = m.stage, m.mod_water_weight
            m.stage, m.mod_water_weight = np.array(keep, copy=True), np.ones_like(keepw)
            c = self.const["inlet"][1]
            m.stage[0, c] += 1.0
            try:
                m.get_water_weight_array()
                m._mc_leaks = bool((np.asarray(m.water_weights)[0, c, :3] > 0).any())
            except AttributeError:
                m._mc_leaks = False
            m.stage, m.mod_water_weight = keep, keepw
        return m._mc_leaks

    def observed_paths(self):
        m = self.m
        W = m.eta.shape[1]
        out = []
        for row in np.asarray(m.free_surf_walk_inds):
            out.append([(int(i) // W, int(i) % W) for i in row if i > 0])
        return out

    def hook_compute_free_surface(self):
        m, s, w = self.m, self.s, self.walk
        self.qn = [np.array(getattr(m, k), dtype=float) for k in ("qxn", "qyn", "qwn")]
        self.paths = self.observed_paths()
        self.flags = [bool(f == 1) for f in m.free_surf_flag]
        if "walk" in self.aspects:
            r = self.r
            ww = getattr(m, "water_weights", None)
            if ww is not None:
                ok = w.ok & (s["cell_type"] != -2)
                cmp(r, "direction probabilities" + self.where, ww, w.weights, rtol=1e-3, atol=1e-5, mask=ok[..., None])
                ww = np.asarray(ww, dtype=float)
                up = ww[0, s["inlet"], :3]
                if (up > 0).any():
                    slope = (ref.nbrs(s["stage"])[0, s["inlet"], :3] < s["stage"][0, s["inlet"], None]) & np.array([True, False, True])
                    if ((up > 0) & ~slope).any():
                        r.fail("a direction out of the domain has positive probability" + self.where)
                    else:
                        r.finding("in the first row the diagonal directions out of the domain get the weight of the lateral water-surface slope")
                free = s["cell_type"] != -2
                if (ww < 0).any() or not np.allclose(ww[free].sum(-1), 1, atol=1e-6):
                    r.fail("direction probabilities are negative or do not sum to one" + self.where)
                if (np.where(ref.nbrs(s["cell_type"]) == -2, ww, 0) != 0).any():
                    r.fail("a direction onto land has positive probability" + self.where)
            want = [[c for c in p if c is not None] for p in w.path]
            if want != self.paths:
                k = [a == b for a, b in zip(want, self.paths)].index(False)
                r.fail("walk of a water parcel%s differs: parcel %d went %s, expected %s" % (self.where, k, self.paths[k], want[k]))
                return
            for p in self.paths:
                for a in p:
                    if s["cell_type"][a] == -2:
                        r.fail("a water parcel is on land at %s%s" % (a, self.where))
            if self.flags != w.valid:
                r.fail("parcels contributing to the surface%s: %s, expected %s" % (self.where, self.flags, w.valid))
            # share of the inflow per move; at the inlet cells the entries may be counted per parcel or per cell
            for name, got, exp, k in (("downstream flux", self.qn[0], w.qx, 0), ("cross flux", self.qn[1], w.qy, None), ("water flux", self.qn[2], w.qw, 1)):
                outs = [exp + (w.entries(d)[k] if k is not None else 0) for d in (True, False)]
                if not any(lib.close(got, o, rtol=3e-5, atol=1e-5) for o in outs):
                    cmp(r, name + " accumulated by the parcels" + self.where, got, outs[0], atol=1e-5)

    def hook_finalize_water_iteration(self, iteration):
        m, s = self.m, self.s
        self.iteration = iteration
        self.mid = {k: np.array(getattr(m, k), dtype=float) for k in ("stage", "eta", "depth")}
        if "surface" in self.aspects:
            r = self.r
            visit, total = ref.accumulate_surface(self.paths, self.flags, s["cell_type"], s["uw"], s["ux"], s["uy"], s["depth"], s["dx"], s["u0"],
                                                  s["h0"], s["H_SL"], s["S0"])
            H = ref.new_surface(s, visit, total)
            stage = np.array(s["stage"], dtype=float)
            if not self.first:
                Hs = ref.smooth(H, s["cell_type"], s["Nsmooth"], s["Csmooth"])
                stage = (1 - s["omega_sfc"]) * stage + s["omega_sfc"] * Hs
            want, n, amb = ref.flood(stage, s["eta"], s["depth"], s["dry_depth"])
            self.events["flooded cells"] += n
            self.events["cells visited"] += int((visit > 0).sum())
            got_H = getattr(m, "Hnew", None)
            if got_H is not None:
                cmp(r, "surface averaged from the walks" + self.where, got_H, H)
            cmp(r, "water surface after the iteration" + self.where, self.mid["stage"], want, mask=~amb)

    def end_iteration(self):
        if self.it < 0:
            return
        m, s, r = self.m, self.s, self.r
        if "surface" in self.aspects:
            if (np.asarray(m.stage, dtype=float) < s["H_SL"] - 1e-6).any():
                r.fail("water surface below sea level" + self.where)
            cmp(r, "water surface at the end of the iteration" + self.where, m.stage, np.maximum(self.mid["stage"], s["H_SL"]))
        if "flow" in self.aspects:
            stage = np.maximum(self.mid["stage"], s["H_SL"])
            depth = np.maximum(stage - self.mid["eta"], 0)
            cmp(r, "depth after the iteration" + self.where, m.depth, depth)
            qx, qy, qw = ref.flow(*self.qn, s["qx"].astype(float), s["qy"].astype(float), self.first, self.it, s["omega_flow"], s["omega_iter"],
                                  s["inlet"], s["qw0"])
            for k, v in (("qx", qx), ("qy", qy), ("qw", qw)):
                cmp(r, "discharge %s after the iteration%s" % (k, self.where), getattr(m, k), v, rtol=1e-4, atol=2e-5)
            gd = np.asarray(m.depth, dtype=float)
            gq = [np.asarray(getattr(m, k), dtype=float) for k in ("qx", "qy", "qw")]
            ux, uy, uw = ref.velocity(gq[0], gq[1], gq[2], gd, s["dry_depth"], s["u_max"])
            clear = (np.abs(gd - s["dry_depth"]) > 1e-6) & ((gq[2] == 0) | (gq[2] > 1e-9))
            for k, v in (("ux", ux), ("uy", uy), ("uw", uw)):
                cmp(r, "velocity %s after the iteration%s" % (k, self.where), getattr(m, k), v, rtol=1e-4, atol=1e-5, mask=clear)


def run_water(m, const, fields, choice, r, aspects, first_step, where=""):
    install(m, fields)
    mon = WaterMonitor(m, const, choice, r, aspects, first_step, where)
    m._mon = mon
    try:
        m.route_water()
        mon.end_iteration()
    except ref.Ambiguous:
        r.extra["left out (too close to a threshold)"] += 1
        return None
    finally:
        m._mon = None
    return mon


class SedMonitor:
    """Installs itself on a model for one execution of route_sediment."""

    def __init__(self, m, const, choice, r, where="", lift=None):
        self.m, self.const, self.ch, self.r, self.where, self.lift = m, const, choice, r, where, lift
        self.sed = None
        self.kind = None

    def begin(self, kind):
        if self.lift is not None:
            lift(self.m, self.lift)
        s = state(self.m, self.const)
        self.s = s
        self.kind = kind
        self.ch.us = []
        self.sed = ref.Sediment(s)
        self.sed.qs = np.array(s["qs"], dtype=float)
        self.sed.dep = dict(sand=np.array(s["Vp_dep_sand"], dtype=float), mud=np.array(s["Vp_dep_mud"], dtype=float))
        if kind == "sand":
            for k in ("qs", "Vp_dep_sand", "Vp_dep_mud"):
                if np.any(s[k] != 0):
                    self.r.fail("%s is not cleared at the start of the step%s" % (k, self.where))
        self.sed.route(kind, self.ch)
        lib.force_uniforms(self.ch.us)

    def end(self):
        m, r, sed = self.m, self.r, self.sed
        vol = float(self.const["Vp_sed"]) / self.const["dx"] ** 2
        for k, v in sed.events.items():
            r.extra[k] += v
        for k, v in (("eta", sed.eta), ("depth", sed.depth), ("uw", sed.uw), ("ux", sed.ux), ("uy", sed.uy), ("qs", sed.qs),
                     ("Vp_dep_sand", sed.dep["sand"]), ("Vp_dep_mud", sed.dep["mud"])):
            cmp(r, "%s after routing %s%s" % (k, self.kind, self.where), getattr(m, k), v, rtol=2e-4,
                atol=1e-5 * (self.const["qs0"] if k == "qs" else max(1.0, vol)))

    def hook_route_all_sand_parcels(self):
        self.begin("sand")

    def hook_topo_diffusion(self):
        self.end()

    def hook_route_all_mud_parcels(self):
        self.begin("mud")


def lift(m, seed):
    """Raise the bed above the water surface in some flowing cells, as diffusion can (depth and velocity are not updated by it)."""
    n = noise(seed, m.eta.shape)
    ct = np.asarray(m.cell_type)
    w = (n > 0.1) & (ct != -2) & (np.arange(m.eta.shape[0])[:, None] > 0)
    m.eta[w] = (np.asarray(m.stage) + 0.05 + 0.04 * n)[w]


def run_sediment(m, const, fields, choice, r, where="", lift=None):
    install(m, fields)
    # values left over from the step before
    m.qs[:] = 7.0
    m.Vp_dep_sand[:] = 5.0
    m.Vp_dep_mud[:] = 3.0
    mon = SedMonitor(m, const, choice, r, where, lift)
    m._mon = mon
    try:
        m.route_sediment()
        mon.end()
    except ref.Ambiguous:
        r.extra["left out (too close to a threshold)"] += 1
        return None
    finally:
        m._mon = None
    return mon
