"""Reference model of the physics, written from the documentation and the published scheme, one function per documented stage.

Everything is computed in double precision on plain arrays.  Decisions that single precision cannot settle (a value too close
to a threshold) raise Ambiguous, so that the caller leaves that execution out instead of guessing.
"""
import numpy as np

DI = np.array([-1, -1, -1, 0, 0, 0, 1, 1, 1])          # row (downstream) step of direction k
DJ = np.array([-1, 0, 1, -1, 0, 1, -1, 0, 1])          # column step of direction k
DIST = np.where((DI == 0) & (DJ == 0), 1.0, np.sqrt(DI ** 2.0 + DJ ** 2.0))
UI = DI / DIST                                          # unit vectors of the directions
UJ = DJ / DIST
LAND, EDGE = -2, -1


class Ambiguous(Exception):
    pass


def less(a, b, tol=1e-4):
    """a < b, refusing to decide when both are equal up to single precision"""
    if a == b == 0:
        return False
    if abs(a - b) <= tol * max(abs(a), abs(b)):
        raise Ambiguous("%r vs %r" % (a, b))
    return a < b


def nbrs(a):
    """(L, W, 9) values of the 3x3 neighbourhood, the grid being continued by its edge values"""
    p = np.pad(np.asarray(a), 1, "edge")
    L, W = p.shape[0] - 2, p.shape[1] - 2
    return np.stack([p[1 + di:1 + di + L, 1 + dj:1 + dj + W] for di, dj in zip(DI, DJ)], axis=-1)


# --------------------------------------------------------------------------------------------- water routing
def water_weights(depth, stage, mod, ct, qx, qy, dry_depth, gamma, theta, closed_upstream=True):
    """Direction probabilities of every cell and a mask of the cells where they are well defined in single precision.

    closed_upstream=False keeps the (known, recorded) defect that the surface slope of the padded field gives weight to the
    diagonal directions leading out of the first row."""
    depth, stage, qx, qy, mod = (np.asarray(v, dtype=float) for v in (depth, stage, qx, qy, mod))
    D, S, M, C = nbrs(depth), nbrs(stage), nbrs(mod), nbrs(ct)
    ctr = np.zeros(9, bool)
    ctr[4] = True
    dry = D < dry_depth
    wall = C == LAND
    off = np.zeros(D.shape, bool)                          # upstream of the first row there is nothing
    off[0, :, :3] = True
    closed = dry | wall | ctr | (off & closed_upstream)
    sfc = np.where(closed, 0, np.maximum(0, (stage[..., None] - S) / DIST))
    proj = qx[..., None] * UI + qy[..., None] * UJ
    inert = np.where(closed, 0, np.maximum(0, proj / DIST))
    ok = ~np.any(np.abs(D - dry_depth) < 1e-6, axis=-1)
    q = np.sqrt(qx ** 2 + qy ** 2)
    noise = (np.abs(proj) < 1e-5 * q[..., None]) & (proj != 0) & ~closed
    ok &= ~(np.any(noise, axis=-1) & (inert.sum(-1) < 1e-3 * q))

    def norm(w):
        s = w.sum(-1, keepdims=True)
        return np.where(s > 0, w / np.where(s > 0, s, 1), w)

    w = gamma * norm(sfc) + (1 - gamma) * norm(inert)
    w = np.where(ctr, 0, np.where(w == 0, 0, (D * M) ** theta * w))
    tot = w.sum(-1)
    invalid = wall | ctr | off
    wet = ~dry & ~invalid
    nwet = wet.sum(-1, keepdims=True)
    notwall = ~wall & ~off
    anywhere = notwall / np.maximum(1, notwall.sum(-1, keepdims=True))
    fall = np.where(nwet > 0, wet / np.maximum(1, nwet), anywhere)
    fall = np.where(wall[..., 4:5], 0, fall)
    out = np.where(tot[..., None] > 0, w / np.where(tot > 0, tot, 1)[..., None], fall)
    return out, ok


class WaterWalk:
    """All water parcels of one iteration, moved in lock step as the choices are made."""

    def __init__(self, s, choose):
        L, W = s["depth"].shape
        self.L, self.W = L, W
        ct = s["cell_type"]
        weights, ok = water_weights(s["depth"], s["stage"], s["mod_water_weight"], ct, s["qx"], s["qy"], s["dry_depth"], s["gamma"], s["theta_water"],
                                    s.get("closed_upstream", True))
        self.weights, self.ok = weights, ok
        n = s["Np_water"]
        inlet = s["inlet"]
        share = s["Qp_water"] / s["dx"] / 2.0
        self.qx, self.qy, self.qw = np.zeros((L, W)), np.zeros((L, W)), np.zeros((L, W))
        self.start = []
        self.valid = [True] * n                      # contributes to the surface
        self.loops = 0
        for _ in range(n):
            k = choose(np.full(len(inlet), 1.0 / len(inlet)), "water-start")
            self.start.append((0, int(inlet[k])))
        self.path = [[c] for c in self.start]        # None = no longer moving
        cur = list(self.start)
        step = 0
        while any(c is not None for c in cur) and step < s["stepmax"]:
            step += 1
            new, dirs = [None] * n, [None] * n
            for p in range(n):
                if cur[p] is None:
                    continue
                i, j = cur[p]
                if not ok[i, j]:
                    raise Ambiguous("weights at %s" % (cur[p],))
                k = choose(weights[i, j], "water", skip=(0, 1, 2) if i == 0 else ())
                if k == 4:
                    continue                        # enclosed by dry cells: the parcel stops
                dirs[p] = k
                ni, nj = i + DI[k], j + DJ[k]
                new[p] = (int(ni), int(nj))
                for (a, b) in ((i, j), (ni, nj)):
                    self._add(a, b, k, share)
            for p in range(n):
                if new[p] is None:
                    cur[p] = None
                    continue
                looped = False
                if step > s["L0"] and any(c == new[p] and c[0] >= s["L0"] for c in self.path[p] if c is not None):
                    px0, py0 = new[p]
                    fx, fy = px0 - 1.0, py0 - float(s["CTR"])
                    fw = np.hypot(fx, fy)
                    px, py = px0, py0
                    if fw != 0:
                        px = px0 + int(np.round(5.0 * fx / fw))
                        py = py0 + int(np.round(5.0 * fy / fw))
                    px = min(L - 2, max(px, s["L0"]))
                    py = min(W - 2, max(1, py))
                    above = abs(float(s["stage"][px0, py0]) - s["H_SL"])
                    if abs(above - 0.1) < 1e-5:
                        raise Ambiguous("stage at the limit of sea level")
                    if above >= 0.1:
                        looped = True
                        self.valid[p] = False
                    new[p] = (px, py)
                    self.loops += 1
                c = new[p]
                if ct[c] == EDGE:
                    self._add(c[0], c[1], dirs[p], share)    # leaves the domain
                    self.path[p].append(None if looped else c)
                    cur[p] = None
                else:
                    self.path[p].append(c)
                    cur[p] = c
        # entering from the inlet: one share per parcel, at least one per cell entered
        self.enter_cells = sorted(set(self.start))
        self.share = share

    def _add(self, i, j, k, share):
        self.qx[i, j] += UI[k]
        self.qy[i, j] += UJ[k]
        self.qw[i, j] += share

    def entries(self, dedup):
        ex, ew = np.zeros((self.L, self.W)), np.zeros((self.L, self.W))
        for c in (self.enter_cells if dedup else self.start):
            ex[c] += 1
            ew[c] += self.share
        return ex, ew


def accumulate_surface(paths, valid, ct, uw, ux, uy, depth, dx, u0, h0, H_SL, S0):
    """Number of visits and sum of the water surface elevations implied by the walks."""
    visit, total = np.zeros(uw.shape), np.zeros(uw.shape)
    for path, ok in zip(paths, valid):
        path = [c for c in path if c is not None]
        if not ok or ct[path[-1]] != EDGE:
            continue
        H = {path[-1]: float(H_SL)}
        ocean, dH = True, 0.0
        for a, b in zip(path[-2::-1], path[:0:-1]):
            if a != b:
                if ocean:
                    if less(0.5 * u0, float(uw[a])) or less(float(depth[a]), 0.1 * h0):
                        ocean = False
                elif uw[a] == 0:
                    dH = 0.0
                else:
                    dH = S0 * dx * (float(ux[a]) * (b[0] - a[0]) + float(uy[a]) * (b[1] - a[1])) / float(uw[a])
            H[a] = H[b] + dH
            visit[a] += 1
            total[a] += H[a]
    return visit, total


def smooth(H, ct, n, c):
    H = np.array(H, dtype=float)
    land = nbrs(ct) == LAND
    use = ~land
    use[..., 4] = False
    cnt = use.sum(-1)
    for _ in range(n):
        mean = np.where(use, nbrs(H), 0).sum(-1) / np.maximum(1, cnt)
        H = np.where((ct != EDGE) & (cnt > 0), c * H + (1 - c) * mean, H)
    return H


def flood(stage, eta, depth, dry_depth):
    """Dry cells with a wet neighbour standing above their bed take the highest wet neighbour's surface."""
    L, W = stage.shape
    out = np.array(stage, dtype=float)
    n = 0
    amb = np.zeros((L, W), bool)
    for i in range(L):
        for j in range(W):
            if depth[i, j] > dry_depth:
                continue
            best = -np.inf
            for di, dj in zip(DI, DJ):
                a, b = i + di, j + dj
                if (di or dj) and 0 <= a < L and 0 <= b < W and depth[a, b] > dry_depth:
                    best = max(best, float(stage[a, b]))
            if np.isfinite(best):
                if abs(best - eta[i, j]) < 1e-5:
                    amb[i, j] = True
                if best > eta[i, j]:
                    out[i, j] = best
                    n += 1
    return out, n, amb


def new_surface(s, visit, total):
    """Hnew: the surface after averaging and limiting, before smoothing."""
    H = np.array(s["eta"], dtype=float) + np.array(s["depth"], dtype=float)
    v = visit > 0
    H[v] = total[v] / visit[v]
    return np.maximum(np.maximum(H, s["H_SL"]), np.asarray(s["eta"], dtype=float))


def flow(qxn, qyn, qwn, qx, qy, first_step, iteration, omega_flow, omega_iter, inlet, qw0):
    d = np.hypot(qxn, qyn)
    f = np.where(d > 0, qwn / np.where(d > 0, d, 1), 1.0)
    ax, ay = qxn * f, qyn * f
    if not first_step:
        o = omega_flow if iteration == 0 else omega_iter
        ax, ay = o * ax + (1 - o) * qx, o * ay + (1 - o) * qy
    aw = np.hypot(ax, ay)
    ax, ay, aw = ax.copy(), ay.copy(), aw.copy()
    ax[0, inlet], ay[0, inlet], aw[0, inlet] = qw0, 0, qw0
    return ax, ay, aw


def velocity(qx, qy, qw, depth, dry_depth, u_max):
    m = (depth > dry_depth) & (qw > 0)
    uw = np.where(m, np.minimum(u_max, qw / np.where(m, depth, 1)), 0.0)
    q = np.where(m, qw, 1)
    return uw * qx / q, uw * qy / q, uw


# --------------------------------------------------------------------------------------------- sediment routing
class Sediment:
    """Sequential sand and mud parcels; `s` holds double precision copies of the fields and the constants."""

    def __init__(self, s):
        self.s = s
        for k in ("eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "mod_sed_weight", "mod_erosion"):
            setattr(self, k, np.array(s[k], dtype=float))
        self.ct = s["cell_type"]
        self.L, self.W = self.eta.shape
        self.qs = np.zeros((self.L, self.W))
        self.dep = dict(sand=np.zeros((self.L, self.W)), mud=np.zeros((self.L, self.W)))
        self.out = dict(sand=0.0, mud=0.0)
        self.events = {}
        self.near = 0

    def weights(self, i, j, theta, pad):
        s = self.s
        w = np.zeros(9)
        wall = np.zeros(9, bool)
        q = np.hypot(self.qx[i, j], self.qy[i, j])
        noisy = False
        for k in range(9):
            if k == 4:
                continue
            a, b = i + DI[k], j + DJ[k]
            inside = 0 <= a < self.L and 0 <= b < self.W
            ca, cb = min(max(a, 0), self.L - 1), min(max(b, 0), self.W - 1)
            wall[k] = self.ct[ca, cb] == LAND
            if wall[k] or a < 0:
                continue
            d = self.depth[a, b] if inside else pad[ca, cb]
            if d != 0 and abs(d - s["dry_depth"]) < 1e-5:
                raise Ambiguous("depth at the dry limit")
            if d <= s["dry_depth"]:
                continue
            p = self.qx[i, j] * UI[k] + self.qy[i, j] * UJ[k]
            if p != 0 and abs(p) < 1e-5 * q:
                noisy = True
            p = max(0.0, p / DIST[k])
            if p > 0:
                w[k] = (d * self.mod_sed_weight[ca, cb]) ** theta * p
        if noisy and w.sum() < 1e-3 * q:
            raise Ambiguous("flow direction")
        if w.sum() == 0:
            w = np.where(wall, 0, 1 / DIST)
            w[4] = 0
            if i == 0:
                w[:3] = 0
        return w / w.sum()

    def route(self, kind, choose):
        s = self.s
        n = int(s["Np_sed"] * (s["f_bedload"] if kind == "sand" else 1 - s["f_bedload"]))
        theta = s["theta_sand"] if kind == "sand" else s["theta_mud"]
        inlet = s["inlet"]
        starts = [int(inlet[choose(np.full(len(inlet), 1.0 / len(inlet)), kind + "-start")]) for _ in range(n)]
        pad = self.depth.copy()                         # beyond the grid: the depth at the start
        half = 1.0 / (2.0 * s["dt"] * s["dx"])
        for y in starts:
            V = s["Vp_sed"]
            i, j = 0, y
            if kind == "sand":
                self.qs[i, j] += V * half
            it = 0
            while True:
                k = choose(self.weights(i, j, theta, pad), kind)
                a, b = i + int(DI[k]), j + int(DJ[k])
                if kind == "sand":
                    self.qs[i, j] += V * half
                    self.qs[a, b] += V * half
                dV = self.change(kind, a, b, V)
                if dV > 0:
                    self.dep[kind][a, b] += dV
                V -= dV
                self.settle(a, b, dV)
                i, j = a, b
                it += 1
                if self.ct[i, j] == EDGE or it == s["stepmax"]:
                    break
            self.out[kind] += V

    def change(self, kind, i, j, V):
        """Volume left on (+) or taken from (-) the bed of a cell by a parcel carrying V."""
        s = self.s
        U = self.uw[i, j]
        be = s["beta"]
        cell = s["dx"] ** 2
        water = self.stage[i, j] - self.eta[i, j]

        def deposit(v):
            if water <= 0:
                self.note(kind + "-above-water")
                return 0.0
            if v > water / 4 * cell:
                self.note(kind + "-dep-limited")
                return water / 4 * cell
            self.note(kind + "-dep")
            return v

        def erode(threshold):
            v = self.mod_erosion[i, j] * s["Vp_sed"] * (U ** be - threshold ** be) / threshold ** be
            if v > abs(water) / 4 * cell:
                self.note(kind + "-ero-limited")
                v = abs(water) / 4 * cell
            else:
                self.note(kind + "-ero")
            return -v

        if kind == "sand":
            cap = s["qs0"] * s["f_bedload"] * (U / s["u0"]) ** be
            if less(cap, self.qs[i, j], 2e-4):
                return deposit(V)
            if less(s["U_ero_sand"], U):
                return erode(s["U_ero_sand"])
            self.note("sand-pass")
            return 0.0
        if U < s["U_dep_mud"]:
            less(U, s["U_dep_mud"], 1e-6)
            return deposit(s["lambda"] * V * (s["U_dep_mud"] ** be - U ** be) / s["U_dep_mud"] ** be)
        if less(s["U_ero_mud"], U, 1e-6):
            return erode(s["U_ero_mud"])
        self.note("mud-pass")
        return 0.0

    def note(self, what):
        self.events[what] = self.events.get(what, 0) + 1

    def settle(self, i, j, dV):
        s = self.s
        eta = self.eta[i, j] + dV / s["dx"] ** 2
        d = max(0.0, self.stage[i, j] - eta)
        q = self.qw[i, j]
        u = min(s["u_max"], q / d) if d > 0 else self.uw[i, j]
        if d != 0 and d < 1e-5:
            raise Ambiguous("vanishing depth")
        self.eta[i, j], self.depth[i, j], self.uw[i, j] = eta, d, u
        self.ux[i, j], self.uy[i, j] = (u * self.qx[i, j] / q, u * self.qy[i, j] / q) if q > 0 else (0.0, 0.0)


def diffuse(eta, qs, ct, alpha, dt, dx, n):
    """Cross-slope diffusion: every pair of neighbours exchanges bed in proportion to flux and elevation difference."""
    eta, qs = np.array(eta, dtype=float), np.array(qs, dtype=float)
    L, W = eta.shape
    for _ in range(n):
        d = np.zeros((L, W))
        for i in range(L):
            for j in range(W):
                if ct[i, j] == LAND or i == 0:
                    continue
                for k in range(9):
                    a, b = i + DI[k], j + DJ[k]
                    if k == 4:
                        continue
                    e, q = (eta[a, b], qs[a, b]) if 0 <= a < L and 0 <= b < W else (0.0, 0.0)
                    d[i, j] += KERNEL[k] * (qs[i, j] + q) * (e - eta[i, j])
        eta = eta + dt / n * alpha * 0.5 / dx ** 2 * d
    return eta


KERNEL = np.ones(9)
