"""Helpers to drive the real model: tiny configurations, snapshots, random-draw control."""
import os
import logging

import numpy as np

# smallest domains that still have land, an inlet channel, ocean and boundary cells
TINY = dict(Length=12.0, Width=18.0, dx=1.0, L0_meters=2.0, N0_meters=3.0, itermax=1, Np_water=3,
            Np_sed=4, h0=1.0, u0=1.0, seed=7, stepmax=8, C0_percent=0.1, S0=0.0002, f_bedload=0.5)

GRIDS = ["eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "sand_frac", "active_layer"]
SCALARS = ["time", "time_iter", "save_iter", "save_time_since_data", "H_SL"]


def DeltaModel():
    from pyDeltaRCM.model import DeltaModel as M
    return M


def dispose(m):
    """Close everything a model instance holds open (it is not reused afterwards)."""
    if m is None:
        return
    nc = getattr(m, "output_netcdf", None)
    try:
        if nc is not None and nc.isopen():
            nc.close()
    except Exception:
        pass
    lg = getattr(m, "logger", None)
    if lg is not None:
        for h in list(lg.handlers):
            try:
                h.close()
            except Exception:
                pass
            lg.removeHandler(h)
        logging.Logger.manager.loggerDict.pop(lg.name, None)
    try:
        import matplotlib.pyplot as plt
        plt.close("all")
    except Exception:
        pass


def snap(m, extra=()):
    d = {}
    for g in list(GRIDS) + list(extra):
        v = getattr(m, g, None)
        d[g] = None if v is None else np.array(v, copy=True)
    for s in SCALARS:
        d[s] = getattr(m, s)
    return d


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    return a == b


def diff(a, b, keys):
    """Names on which two snapshots differ (exact comparison)."""
    return [k for k in keys if not same(a[k], b[k])]


def describe(a, b, keys):
    out = {}
    for k in keys:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            w = np.argwhere(~((np.asarray(x) == np.asarray(y)))) if np.shape(x) == np.shape(y) else []
            out[k] = "first differing cell %s: %s vs %s" % (
                w[0].tolist() if len(w) else None, x[tuple(w[0])] if len(w) else np.shape(x),
                y[tuple(w[0])] if len(w) else np.shape(y))
        else:
            out[k] = "%r vs %r" % (x, y)
    return out


def close(a, b, rtol=2e-5, atol=2e-6):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def where_not_close(a, b, rtol=2e-5, atol=2e-6):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    w = np.argwhere(~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if len(w) == 0:
        return "shapes %s %s" % (a.shape, b.shape)
    i = tuple(w[0])
    return "%d cell(s), first %s: got %r expected %r" % (len(w), list(map(int, i)), float(a[i]), float(b[i]))


def read_nc(path, copy=True):
    """Read a whole output file into plain dictionaries."""
    import shutil
    import tempfile
    from netCDF4 import Dataset
    p = path
    tmp = None
    if copy:
        fd, tmp = tempfile.mkstemp(suffix=".nc")
        os.close(fd)
        shutil.copyfile(path, tmp)
        p = tmp
    try:
        ds = Dataset(p, "r")
        ds.set_auto_mask(False)
        out = dict(vars={}, meta={}, units={}, dims={}, vdims={}, attrs={}, unlimited=[])
        for n, d in ds.dimensions.items():
            out["dims"][n] = len(d)
            if d.isunlimited():
                out["unlimited"].append(n)
        for n, v in ds.variables.items():
            out["vars"][n] = np.array(v[:])
            out["vdims"][n] = tuple(v.dimensions)
            out["units"][n] = getattr(v, "units", None)
        for gname, g in ds.groups.items():
            for n, v in g.variables.items():
                key = n if gname == "meta" else gname + "/" + n
                out["meta"][key] = np.array(v[:])
                out["vdims"]["meta/" + key] = tuple(v.dimensions)
                out["units"]["meta/" + key] = getattr(v, "units", None)
        for a in ds.ncattrs():
            out["attrs"][a] = ds.getncattr(a)
        ds.close()
        return out
    finally:
        if tmp:
            os.remove(tmp)


# ---------------------------------------------------------------- random draws, compiled code
def _untemper(y):
    y &= 0xFFFFFFFF
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & 0xFFFFFFFF
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xFFFFFFFF


def force_uniforms(us):
    """Make the compiled generator return exactly these doubles in [0,1) next (at most 312)."""
    from pyDeltaRCM import shared_tools
    assert len(us) <= 312
    words = []
    for u in us:
        k = int(u * 9007199254740992.0)
        a, b = k >> 26, k & ((1 << 26) - 1)
        words += [_untemper((a << 5) & 0xFFFFFFFF), _untemper((b << 6) & 0xFFFFFFFF)]
    while len(words) < 624:
        words.append((0x9E3779B9 * (len(words) + 1)) & 0xFFFFFFFF)
    shared_tools.set_random_state((0, words))


# ---------------------------------------------------------------- random draws, interpreted code
class Draws:
    """Owns every random draw of the interpreted (NUMBA_DISABLE_JIT) model.

    Each call of the weighted pick is a choice point; `prefix` gives the choices to take (indices
    into the alternatives ordered by decreasing probability), afterwards `default` is taken.
    """

    def __init__(self, prefix=(), default=0, tail=None):
        self.prefix = list(prefix)
        self.default = default
        self.tail = tail            # optional callable(position) -> choice
        self.points = []            # (number of alternatives, choice, picked index, probabilities, tag)
        self.us = []                # the uniform deviates handed out
        self.tag = None
        self._pending = None

    # ---- plumbing
    def __enter__(self):
        import numpy.random as nr
        from pyDeltaRCM import shared_tools
        self._st = shared_tools
        self._orig_pick = shared_tools.random_pick
        self._nr = {n: getattr(nr, n) for n in ("uniform", "random", "random_sample", "rand", "ranf")
                    if hasattr(nr, n)}
        shared_tools.random_pick = self.pick
        nr.uniform = self._uniform
        for n in ("random", "random_sample", "rand", "ranf"):
            if n in self._nr:
                setattr(nr, n, self._random)
        return self

    def __exit__(self, *a):
        import numpy.random as nr
        self._st.random_pick = self._orig_pick
        for n, f in self._nr.items():
            setattr(nr, n, f)

    def _next(self, n):
        pos = len(self.points)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            if not 0 <= c < n:
                raise RuntimeError("replay divergence: choice %d of %d at point %d" % (c, n, pos))
            return c
        c = self.tail(pos) if self.tail else self.default
        return c if c < n else n - 1

    def pick(self, prob):
        prob = np.asarray(prob, dtype=float)
        cum = np.cumsum(prob)
        alts = sorted([i for i in range(len(prob)) if prob[i] > 1e-12 * max(1.0, cum[-1])],
                      key=lambda i: (-round(prob[i] / cum[-1], 9), i))
        if not alts or not np.isfinite(cum[-1]):
            self._pending = 0.5
            self.points.append((1, 0, None, prob.copy(), self.tag))
            return self._orig_pick(prob)
        c = self._next(len(alts))
        idx = alts[c]
        self._pending = (cum[idx] - prob[idx] / 2.0) / cum[-1]
        got = self._orig_pick(prob)
        self._pending = None
        self.points.append((len(alts), c, int(got), prob.copy(), self.tag))
        if int(got) != idx:
            self.mismatch = (prob.tolist(), idx, int(got))
        return got

    mismatch = None

    def _u(self):
        if self._pending is not None:
            u = self._pending
        else:
            qs = [0.5, 0.03, 0.97, 0.25, 0.75]
            c = self._next(len(qs))
            self.points.append((len(qs), c, None, None, self.tag))
            u = qs[c]
        self.us.append(u)
        return u

    def _uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._u()

    def _random(self, *a, **k):
        return self._u()


def explore(execute, bound, max_exec=None, branch=None):
    """Deviation-bounded depth-first exploration.

    `execute(prefix)` runs one execution and returns a Draws with its recorded points; every point
    beyond the prefix is branched on while the number of non-default choices stays within `bound`.
    `branch(point, position)` may restrict where deviations are tried.
    Returns (executions, capped).
    """
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        d = execute(prefix)
        n += 1
        choices = [p[1] for p in d.points]
        cost = sum(1 for c in choices[:len(prefix)] if c)
        if cost < bound:
            for i in range(len(d.points) - 1, len(prefix) - 1, -1):
                if branch is not None and not branch(d.points[i], i):
                    continue
                for alt in range(d.points[i][0] - 1, 0, -1):
                    stack.append(choices[:i] + [alt])
        if max_exec and n >= max_exec and stack:
            return n, True
    return n, False


def warm_compile():
    """Compile everything once in the parent; the forked workers inherit the compiled code."""
    M = DeltaModel()
    for i, kw in enumerate((dict(), dict(stepmax=None, itermax=2))):
        m = M(out_dir="warm%d" % i, **dict(TINY, **kw))
        m.update()
        m.finalize()
        dispose(m)
