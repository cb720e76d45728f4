"""The simulated system: an interpreter for traces of public-API operations, run on the real library and,
in step with it, on the reference model.

A trace is plain data. Operations name the objects they use and define; an operation whose objects are
missing (because minimisation removed the operation that made them) is skipped, so every sub-sequence of a
trace is again a trace.
"""
import gc
import weakref

import numpy as np

from . import ref as R
from . import seams

B = None
stheno = None
matrix = None


BACK = None  # Another kind of arrays than NumPy's.


def bind():
    global B, stheno, matrix
    from . import boot

    stheno = boot.boot()
    import lab
    import matrix as _matrix

    B = lab
    matrix = _matrix


class Skip(Exception):
    pass


class Violation(Exception):
    def __init__(self, cls, detail, op=None):
        Exception.__init__(self, cls)
        self.cls = cls
        self.detail = detail
        self.op = op


OBS = {
    "exact": "Observations",
    "vfe": "PseudoObservations",
    "fitc": "PseudoObservationsFITC",
    "dtc": "PseudoObservationsDTC",
}


def flat(v):
    if isinstance(v, (tuple, list)):
        for u in v:
            yield from flat(u)
    else:
        yield v


def dense(v):
    """Plain array of any result."""
    if isinstance(v, (tuple, list)):
        return [dense(u) for u in v]
    return BACK.plain(B.dense(v)) if BACK is not None else np.asarray(B.dense(v))


def arr(v):
    """Array for the library."""
    return BACK.arr(v) if BACK is not None else v


def num(v):
    """Number for the library."""
    return BACK.num(v) if BACK is not None else v


def digest(v):
    """Shape-only digest: event logs must not depend on floating-point details."""
    if isinstance(v, (tuple, list)):
        return [digest(u) for u in v]
    if v is None:
        return None
    if isinstance(v, (str, bool, int)):
        return v
    return list(np.shape(v))


class Tol:
    rel = 3e-6
    worst = 0.0  # Largest error relative to its tolerance, of the comparisons that passed.


def differs(a, b, scale=1.0, tol=None):
    """Why the real value `a` differs from the expected value `b`, or None."""
    if isinstance(b, (tuple, list)):
        if not isinstance(a, (tuple, list)) or len(a) != len(b):
            return "structure"
        for i, (u, v) in enumerate(zip(a, b)):
            d = differs(u, v, scale, tol)
            if d:
                return f"[{i}] {d}"
        return None
    if isinstance(b, (str, bool, type(None))):
        return None if a == b else f"{a!r} instead of {b!r}"
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if a.size == 0:
        return None
    if not np.issubdtype(a.dtype, np.number) and not a.dtype == bool:
        return f"dtype {a.dtype}"
    s = max(scale, float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else scale)
    t = (tol or Tol.rel) * s
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= t
        same = (a == b) | (np.isnan(a) & np.isnan(b))
    if np.all(ok | same):
        if not np.all(same):
            Tol.worst = max(Tol.worst, float(np.max(np.abs(np.where(same, 0, a - b)))) / t)
        return None
    err = np.where(ok | same, 0, np.abs(a - b))
    k = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), a.shape)
    return f"at {tuple(int(i) for i in k)}: {a[k]!r} instead of {b[k]!r}"


def short(e):
    return f"{type(e).__name__}: {str(e)[:160]}".replace("\n", " ")


# --------------------------------------------------------------------------------------------------
# User-supplied functions and kernels, as real objects.


def user_fn(spec, name=None, table=None):
    if BACK is not None:
        return (BACK.tfs if table is R.TFS else BACK.fns)[spec[0]](num(spec[1]))
    f = (table or R.FNS)[spec[0]](spec[1])

    def user(x):
        seams.CALLS.hit(name or "fn", "fn", (x.shape[0],))
        return f(np.asarray(x))

    return user


def real_kernel(spec):
    t = spec[0]
    s = stheno
    if t == "eq":
        return s.EQ()
    if t == "m12":
        return s.Matern12()
    if t == "m32":
        return s.Matern32()
    if t == "m52":
        return s.Matern52()
    if t == "rq":
        return s.RQ(num(spec[1]))
    if t == "lin":
        return s.Linear()
    if t == "one":
        return s.OneKernel()
    if t == "zero":
        return s.ZeroKernel()
    if t == "num":
        return num(spec[1])
    if t == "fn":
        return user_fn(spec[1], "kfn")
    if t == "scale":
        if BACK is not None:
            return real_kernel(spec[2]) * num(spec[1])
        return spec[1] * real_kernel(spec[2])
    if t == "stretch":
        return real_kernel(spec[2]).stretch(num(spec[1]))
    if t == "sum":
        return real_kernel(spec[1]) + real_kernel(spec[2])
    if t == "prod":
        return real_kernel(spec[1]) * real_kernel(spec[2])
    if t == "track":
        return seams.TrackKernel(spec[1], real_kernel(spec[2]))
    raise ValueError(spec)


def real_mean(spec):
    t = spec[0]
    if t == "zero":
        return stheno.ZeroMean()
    if t == "num":
        return num(spec[1])
    if t == "fn":
        return user_fn(spec[1], spec[2] if len(spec) > 2 else "mfn")
    if t == "sum":
        a, b = real_mean(spec[1]), real_mean(spec[2])
        one = stheno.OneMean()
        return a * one + b * one
    raise ValueError(spec)


def fdm_plan(deriv, order):
    """Grid, coefficients and step of the finite-difference approximation (third-party library)."""
    from fdm import central_fdm

    m = central_fdm(order, deriv, adapt=0, factor=1e8)
    m.estimate()
    return list(m.grid), list(m.coefs), float(m.step)


_fdm_cache = {}


def fdm_cached(deriv, order):
    if (deriv, order) not in _fdm_cache:
        _fdm_cache[deriv, order] = fdm_plan(deriv, order)
    return _fdm_cache[deriv, order]


# --------------------------------------------------------------------------------------------------


class FRef:
    """Reference for a finite-dimensional distribution."""

    __slots__ = ("p", "X", "noise", "m", "nk", "_mv", "W")

    def __init__(self, W, p, X, noise, nk=None):
        self.W = W
        self.p, self.X, self.noise, self.nk = p, X, noise, nk
        self._mv = None

    def mv(self):
        if self._mv is None:
            M = self.W.fM[self.W.primary(self.p)]
            self._mv = (
                M.mean(self.p, self.X),
                M.cov(self.p, self.p, self.X, self.X) + self.noise,
            )
        return self._mv


class ORef:
    __slots__ = ("method", "us", "items", "lost", "diag", "hids")


def noise_ref(spec, n):
    if spec is None:
        return np.zeros((n, n))
    t, v = spec
    v = np.asarray(v, dtype=float)
    if t == "s":
        return float(v) * np.eye(n)
    if t in ("v", "D"):
        return np.diag(v)
    return v


def noise_real(spec):
    if spec is None:
        return None
    t, v = spec
    if t == "s":
        return num(v + 0.0)  # An object of its own.
    a = arr(np.array(v, dtype=float))
    if t == "D":
        return matrix.Diagonal(a)
    if t == "M":
        return matrix.Dense(a)
    return a


class World:
    """Args:
    real: Run the real library.
    """

    def __init__(self, real=True, check_refs=True):
        if real and stheno is None:
            bind()
        self.real = real
        # Real objects.
        self.r = {"x": {}, "y": {}, "M": {}, "P": {}, "D": {}, "O": {}, "N": {}}
        # Reference objects.
        self.fx, self.fy, self.fM, self.fP, self.fD, self.fO = {}, {}, {}, {}, {}, {}
        self.f = {"x": self.fx, "y": self.fy, "M": self.fM, "P": self.fP, "D": self.fD, "O": self.fO}
        self.origin = {}  # (measure, process) -> provenance for equivalent-form checks
        self.dropped = set()
        self.products = set()  # processes that are themselves Cartesian products
        self.partsof = {}  # product -> its parts
        self.ofprod = set()  # processes derived from a product
        self.offd = set()  # processes derived from a finite difference
        self.inputs = []  # (reference to real array, pristine copy): caller data.
        self.probe_samples = True
        self.ghosts = []

    # ---- bookkeeping ----

    KEYS = {
        "m": "M", "p": "P", "q": "P", "x": "x", "y2": "x", "d": "D", "e": "D", "obs": "O", "via": "M", "y": "y",
    }
    LKEYS = {"ps": "P", "ds": "D", "us": "D", "parts": "D"}

    def deps(self, op):
        out = []
        for k, kind in self.KEYS.items():
            if op.get(k) is not None:
                out.append((kind, op[k]))
        for k, kind in self.LKEYS.items():
            for i in op.get(k) or []:
                out.append((kind, i))
        for d, y in op.get("items") or []:
            out.append(("D", d))
            out.append(("y", y))
        return out

    DEF = {
        "x": "x", "y": "y", "gp": "P", "un": "P", "bin": "P", "apply": "P", "cross": "P", "fdd": "D",
        "mfdd": "D", "comb": "D", "obs": "O", "cond": "M", "pcond": "P", "measure": "M",
    }

    def defines(self, op):
        out = []
        k = self.DEF.get(op["o"])
        if k:
            out.append((k, op["id"]))
        if op.get("nm"):
            out.append(("M", op["nm"]))
        if op.get("np"):
            out.append(("P", op["np"]))
        return out

    def ready(self, op):
        for kind, i in self.deps(op):
            if (kind, i) in self.dropped:
                return False
            if i not in self.f[kind] or (self.real and i not in self.r[kind]):
                return False
        for kind, i in self.defines(op):
            if i in self.f[kind]:
                return False
        return True

    def undo_ref(self, op):
        for kind, i in self.defines(op) + [("P", h) for h in self.hidden(op)]:
            self.f[kind].pop(i, None)
            if kind == "P":
                for M in self.fM.values():
                    if i in M.rep:
                        del M.rep[i]
                        M.order.remove(i)
                        M.how.pop(i, None)
                        M._ok.clear()
            if kind == "M":
                for ms in self.fP.values():
                    if i in ms:
                        ms.remove(i)

    def primary(self, p):
        return self.fP[p][0]

    def common(self, *ps):
        if any(self.primary(p) != self.primary(ps[0]) for p in ps):
            raise R.Refused("different measures")
        return [m for m in self.fP[ps[0]] if all(m in self.fP[p] for p in ps)]

    # ---- apply one operation to the reference ----

    rough_tol = 1e-3

    def rough(self, op):
        """Finite differences amplify rounding."""
        ps = [op[k] for k in ("p", "q") if op.get(k)]
        if op.get("d"):
            ps.append(self.fD[op["d"]].p)
        return any(self.fM[m].rough(p) for p in ps for m in self.fP[p] if p in self.fM[m].how)

    def degenerate(self, op):
        """Involves low-rank or constant variances, which the matrix library handles less accurately."""
        ps = [op[k] for k in ("p", "q") if op.get(k)]
        if op.get("d"):
            ps.append(self.fD[op["d"]].p)
        ps += [self.fD[d].p for d, _ in op.get("items") or []]
        if op.get("obs"):
            ps += [i[0] for i in self.fO[op["obs"]].items]
        return any(self.fM[m].low_rank(p) for p in ps for m in self.fP[p] if p in self.fM[m].how)

    def ref(self, op):
        if not self.ready(op):
            raise Skip()
        return getattr(self, "f_" + op["o"])(op)

    def f_x(self, op):
        v = np.asarray(op["v"], dtype=float)
        if op["f"][-1] == "m":
            X = v.reshape(-1, 2)
        else:
            X = v.reshape(-1, 1)
        self.fx[op["id"]] = X

    def f_y(self, op):
        self.fy[op["id"]] = np.array(
            [np.nan if u is None else u for u in op["v"]], dtype=float
        )

    def f_measure(self, op):
        self.fM[op["id"]] = R.RM()

    def f_gp(self, op):
        mid = op.get("m") or op["nm"]
        if op.get("nm"):
            self.fM[mid] = R.RM()
        self.fM[mid].add_gp(
            op["id"], R.mean(op["mean"]), R.kernel(op["kernel"]), R.degenerate(op["kernel"])
        )
        self.fP[op["id"]] = [mid]

    def _measures(self, op, *ps):
        ms = self.common(*ps) if len(ps) > 1 else list(self.fP[ps[0]])
        if op.get("via"):
            if op["via"] not in ms:
                raise R.Reject("not a common measure")
            return [op["via"]]
        return ms

    def f_bin(self, op):
        p, q, k = op["p"], op["q"], op["k"]
        if k == "sub" and op.get("via"):
            raise R.Reject("no such call")
        ms = self._measures(op, p, q)
        self._derive(op["id"], p, q)
        for m in ms:
            M = self.fM[m]
            if k == "mul":
                M.prod(op["id"], p, q)
            else:
                M.sum2(op["id"], p, q, -1.0 if k == "sub" else 1.0)
        self.fP[op["id"]] = ms

    def f_un(self, op):
        p, k, a = op["p"], op["k"], op.get("a")
        ms = self._measures(op, p)
        if k in ("diff", "diffa"):
            if p in self.offd:
                raise R.Reject("nested finite differences")
            self.offd.add(op["id"])
        if k == "diff":
            if any(self.fM[m].dims(p) > 1 for m in ms):
                raise R.Reject("multi-output")
        self._derive(op["id"], p)
        for m in ms:
            M = self.fM[m]
            i = op["id"]
            if k in ("add_c", "radd_c"):
                M.affine(i, p, 1.0, lambda X: a * np.ones(len(X)))
            elif k == "sub_c":
                M.affine(i, p, 1.0, lambda X: -a * np.ones(len(X)))
            elif k == "rsub_c":
                M.affine(i, p, -1.0, lambda X: a * np.ones(len(X)))
            elif k in ("add_f", "radd_f"):
                f = R.fn(a)
                M.affine(i, p, 1.0, lambda X: f(X)[:, 0])
            elif k == "rsub_f":
                f = R.fn(a)
                M.affine(i, p, -1.0, lambda X: f(X)[:, 0])
            elif k in ("mul_c", "rmul_c"):
                M.affine(i, p, a)
            elif k == "div_c":
                M.affine(i, p, 1.0 / a)
            elif k == "neg":
                M.affine(i, p, -1.0)
            elif k in ("mul_f", "rmul_f"):
                M.mulf(i, p, R.fn(a))
            elif k == "shift":
                M.inmap(i, p, lambda X: X - _fit(a, X))
            elif k == "stretch":
                M.inmap(i, p, lambda X: X / _fit(a, X))
            elif k == "select":
                M.inmap(i, p, lambda X: _take(X, a))
            elif k == "transform":
                M.inmap(i, p, R.tf_(a))
            elif k == "diff":
                # By central differences, of fourth order.
                h = 0.01

                def move(X, g):
                    X = np.array(X, dtype=float)
                    X[:, a] += g * h
                    return X

                M.lincomb(
                    i,
                    p,
                    [c / h for c in (1 / 12, -2 / 3, 2 / 3, -1 / 12)],
                    [lambda X, g=g: move(X, g) for g in (-2, -1, 1, 2)],
                )
            elif k == "diffa":
                grid, coefs, step = fdm_cached(*a)
                M.lincomb(
                    i,
                    p,
                    [c / step ** a[0] for c in coefs],
                    [lambda X, g=g: X + g * step for g in grid],
                )
            else:
                raise ValueError(k)
        self.fP[op["id"]] = ms

    def f_apply(self, op):
        m, p = op["m"], op["p"]
        if m not in self.fP[p]:
            raise R.Reject("not in measure")
        self.fM[m].copy(op["id"], p)
        self._derive(op["id"], p)
        self.fP[op["id"]] = [m]

    def f_cross(self, op):
        ms = self._measures(op, *op["ps"])
        for m in ms:
            self.fM[m].cross(op["id"], op["ps"])
        self.fP[op["id"]] = ms
        self.products.add(op["id"])
        self.partsof[op["id"]] = list(op["ps"])

    def _n(self, m, p, X):
        return sum(len(Xb) for _, Xb in self.fM[m].blocks(p, X))

    def f_fdd(self, op):
        p = op["p"]
        m = self.primary(p)
        if op.get("parts"):
            parts = [self.fD[d] for d in op["parts"]]
            if any(isinstance(f.X, list) for f in parts):
                raise R.Reject("nested parts")
            X = [(f.p, f.X) for f in parts]
            if any(q not in self.fM[m].rep for q, _ in X):
                raise R.Reject("parts not in the measure")
        else:
            X = self.fx[op["x"]]
        n = self._n(m, p, X)
        noise = noise_ref(op.get("noise"), n)
        if len(noise) != n:
            raise R.Reject("noise size")
        self.fD[op["id"]] = FRef(self, p, X, noise, op.get("noise") and op["noise"][0])

    def f_mfdd(self, op):
        f = self.fD[op["d"]]
        m = op["m"]
        if m not in self.fP[f.p]:
            raise R.Reject("not in measure")
        self.fM[m].copy(op["np"], f.p)
        self._derive(op["np"], f.p)
        self.fP[op["np"]] = [m]
        self.fD[op["id"]] = FRef(self, op["np"], f.X, f.noise, f.nk)

    def _combined(self, ds):
        fs = [self.fD[d] for d in ds]
        X = [(f.p, f.X) for f in fs]
        if any(isinstance(f.X, list) for f in fs):
            raise R.Reject("nested parts")
        N = _blockdiag([f.noise for f in fs])
        return fs, X, N

    def f_comb(self, op):
        fs, X, N = self._combined(op["ds"])
        ms = self.common(*[f.p for f in fs])
        for m in ms:
            self.fM[m].cross(op["np"], [f.p for f in fs])
        self.fP[op["np"]] = ms
        self.products.add(op["np"])
        self.partsof[op["np"]] = [f.p for f in fs]
        self.fD[op["id"]] = FRef(
            self, op["np"], X, N, None if any(f.nk is None for f in fs) else "c"
        )

    def _items(self, op, need_common=True):
        items = []
        for d, y in op["items"]:
            f = self.fD[d]
            yv = self.fy[y]
            if len(yv) != len(f.noise):
                raise R.Reject("size")
            items.append((f.p, f.X, f.noise, yv))
        if len(items) > 1:
            self.common(*[i[0] for i in items])
            if any(isinstance(i[1], list) for i in items):
                raise R.Reject("nested parts")
        for d, _ in op["items"]:
            f = self.fD[d]
            if f.nk is None and any(self.fM[m].low_rank(f.p) for m in self.fP[f.p]):
                raise R.Reject("low rank")
            if any(self.fM[m].fragile(f.p) for m in self.fP[f.p]):
                raise R.Reject("fragile")
            if any(self.fM[m].rough(f.p) for m in self.fP[f.p]):
                raise R.Reject("rough")
        # Known limitation (recorded as a finding): data lost when a multi-output process that is not itself
        # a product is among the observed processes.
        if not R.BEYOND[0] and any(np.isnan(i[3]).any() for i in items) and not all(self._losable(i[0]) for i in items):
            raise R.Reject("lossy data of derived multi-output process")
        return items

    def _losable(self, p):
        if p in self.partsof:
            return all(q in self.fP and self._losable(q) for q in self.partsof[p])
        return p not in self.ofprod and self.fM[self.primary(p)].dims(p) == 1

    def _derive(self, i, *ps):
        if any(p in self.partsof or p in self.ofprod for p in ps):
            self.ofprod.add(i)
        if any(p in self.offd for p in ps):
            self.offd.add(i)

    def f_obs(self, op):
        items = self._items(op)
        o = ORef()
        o.method = op["method"]
        o.items = items
        o.us = None
        if o.method != "exact":
            us = [self.fD[d] for d in op["us"]]
            if len(us) > 1:
                self.common(*[u.p for u in us])
            if any(isinstance(u.X, list) for u in us):
                raise R.Reject("nested parts")
            o.us = [(u.p, u.X, u.noise) for u in us]
            if any(self.fM[m].rough(u.p) for u in us for m in self.fP[u.p]):
                raise R.Reject("rough")
            if any(u.nk is None and any(self.fM[m].low_rank(u.p) for m in self.fP[u.p]) for u in us):
                raise R.Reject("low rank")
            if any(self.fM[m].fragile(u.p) for u in us for m in self.fP[u.p]):
                raise R.Reject("fragile")
        kinds = [self.fD[d].nk for d, _ in op["items"]]
        # Diagonal noise: a number, a vector, or a diagonal matrix.
        o.diag = all(k in ("s", "v", "D") for k in kinds)
        if o.method != "exact" and not o.diag:
            if "c" in kinds or (None in kinds and len(kinds) > 1):
                raise R.Reject("unclear structure of noise")
        o.hids = self._hidden(op, o)
        self.fO[op["id"]] = o

    def hidden(self, op):
        """Cartesian products that an operation makes behind the scenes."""
        out = []
        if op["o"] in ("obs", "cond", "pcond"):
            i = op["id"]
            if "items" in op and (
                len(op["items"]) > 1 or op.get("t") or op.get("form") in ("or", "pairs")
            ):
                out.append(("#hx", i))
            if len(op.get("us") or []) > 1 or op.get("ut"):
                out.append(("#hu", i))
        return out

    def _hidden(self, op, o):
        hs = self.hidden(op)
        for h in hs:
            ps = [i[0] for i in (o.items if h[0] == "#hx" else o.us)]
            for m in self.common(*ps):
                self.fM[m].cross(h, ps)
        # The processes through which data enters.
        if o.us is not None:
            return [h for h in hs if h[0] == "#hu"] or [o.us[0][0]]
        return [h for h in hs if h[0] == "#hx"] or [o.items[0][0]]

    def _condition(self, m, o, commit=True):
        M = self.fM[m]
        for p, *_ in list(o.items) + list(o.us or []):
            if m not in self.fP[p]:
                raise R.Reject("process not in measure")
        if M.depth >= 3:
            raise R.Reject("too deep")
        if o.method == "exact":
            return R.condition(M, o.items, hids=o.hids), None
        if not o.diag:
            raise R.Reject("non-diagonal noise")
        self._pseudo_ok(M, o)
        return R.pseudo(M, o.method, o.us, o.items, hids=o.hids)

    def _pseudo_ok(self, M, o):
        for p, *_ in o.items:
            if not M.elwise_ok(p):
                raise R.Reject("refused by design")

    def _obs_of(self, op):
        if op.get("obs"):
            return self.fO[op["obs"]]
        o = ORef()
        o.method, o.us, o.items, o.diag = "exact", None, self._items(op), True
        o.hids = self._hidden(op, o)
        return o

    def f_cond(self, op):
        m = op["m"]
        RMn, _ = self._condition(m, self._obs_of(op))
        self.fM[op["id"]] = RMn
        for p in self.fM[m].order:
            if p in self.fP:
                self.fP[p].append(op["id"])

    def f_pcond(self, op):
        m = self.primary(op["p"])
        RMn, _ = self._condition(m, self._obs_of(op))
        self.fM[op["nm"]] = RMn
        for p in self.fM[m].order:
            if p in self.fP:
                self.fP[p].append(op["nm"])
        RMn.copy(op["id"], op["p"])
        self.fP[op["id"]] = [op["nm"]]

    # Queries: give the expected value and a scale.

    def _in(self, m, *ps):
        for p in ps:
            if m not in self.fP[p]:
                raise R.Reject("not in measure")

    def f_qm(self, op):
        self._in(op["m"], op["p"])
        return self.fM[op["m"]].mean(op["p"], self.fx[op["x"]])[:, None]

    def f_qk(self, op):
        m, p, q = op["m"], op["p"], op["q"]
        self._in(m, p, q)
        X = self.fx[op["x"]]
        Y = self.fx[op["y2"]] if op.get("y2") else X
        M = self.fM[m]
        if op["ew"]:
            if M.dims(p) > 1 or M.dims(q) > 1:
                raise R.Reject("element-wise covariance of multi-output processes")
            if p != q and (M.tainted(p) or M.tainted(q)) or not M.elwise_ok(p):
                raise R.Reject("refused by design")
            if len(X) != len(Y):
                raise R.Reject("lengths")
            return np.diag(M.cov(p, q, X, Y))[:, None] if len(X) else np.zeros((0, 1))
        return M.cov(p, q, X, Y)

    def _fdd_mv(self, op):
        if op.get("d"):
            f = self.fD[op["d"]]
            return f.mv()
        m, p = op["m"], op["p"]
        self._in(m, p)
        M, X = self.fM[m], self.fx[op["x"]]
        n = self._n(m, p, X)
        N = noise_ref(op.get("noise"), n)
        if len(N) != n:
            raise R.Reject("noise size")
        return M.mean(p, X), M.cov(p, p, X, X) + N

    def f_acc(self, op):
        mu, S = self._fdd_mv(op)
        y = self.fy[op["y"]] if op.get("y") else None
        if op.get("y") and op["y"] not in self.fy:
            raise Skip()
        if op.get("d"):
            p = self.fD[op["d"]].p
            m = self.primary(p)
        else:
            m, p = op["m"], op["p"]
        if not self.fM[m].elwise_ok(p) and any(k in DIAG for k in op["ks"]):
            raise R.Reject("refused by design")
        if self.fM[m].rough(p) and any(k in FACTOR for k in op["ks"]):
            raise R.Reject("rough")
        noisy = self.fD[op["d"]].nk if op.get("d") else op.get("noise")
        if not noisy and self.fM[m].low_rank(p) and any(k in FACTOR for k in op["ks"]):
            raise R.Reject("low rank")
        if self.fM[m].fragile(p) and any(k in FACTOR for k in op["ks"]):
            raise R.Reject("fragile")
        return [acc_ref(k, mu, S, y) for k in op["ks"]]

    f_fresh = f_acc

    def f_two(self, op):
        """A quantity of two distributions."""
        k = op["k"]
        out = []
        for i in (op["d"], op["e"]):
            self.f_acc({"o": "acc", "d": i, "ks": ["entropy" if k != "nsum" else "mean"]})
            out.append(self.fD[i].mv())
        return two_ref(k, *out)

    def f_lp(self, op):
        form = op["form"]
        if form == "obs":
            o = self.fO[op["obs"]]
            if o.method != "exact":
                raise R.Reject("use elbo")
            items, m = o.items, op["m"]
        else:
            items, m = self._items(op), op.get("m")
        if m is None:
            m = self.primary(items[0][0])
            if form != "d":
                raise R.Reject("form")
        for it in items:
            self._in(m, it[0])
        M = self.fM[m]
        blocks, N, y = R.joint(M, items)
        K = M.cov_joint(blocks, blocks) + N
        R.check_cond(K)
        return np.asarray(R.logpdf(M.mean_joint(blocks), K, y))

    def f_elbo(self, op):
        o = self.fO[op["obs"]]
        if o.method == "exact":
            raise R.Reject("exact")
        m = op["m"]
        for p, *_ in list(o.items) + list(o.us):
            self._in(m, p)
        if not o.diag:
            raise R.Refused("noise must be diagonal")
        self._pseudo_ok(self.fM[m], o)
        return np.asarray(R.pseudo(self.fM[m], o.method, o.us, o.items)[1])

    def f_samp(self, op):
        fs = [self.fD[d] for d in op["ds"]]
        m = op.get("m")
        if m is None:
            if len(fs) != 1:
                raise R.Reject("form")
            m = self.primary(fs[0].p)
        elif op.get("noise") is not None:
            raise R.Reject("no noise argument")
        else:
            if len(fs) > 1:
                self.common(*[f.p for f in fs])
            if any(isinstance(f.X, list) for f in fs):
                raise R.Reject("nested parts")
        for f in fs:
            self._in(m, f.p)
            if self.fM[m].rough(f.p):
                raise R.Reject("rough")
        M = self.fM[m]
        blocks = [b for f in fs for b in M.blocks(f.p, f.X)]
        K = M.cov_joint(blocks, blocks) + _blockdiag([f.noise for f in fs])
        if op.get("noise") is not None:
            K = K + op["noise"] * np.eye(len(K))
        if len(K):
            lo, hi = R.psd_info(K)
            if lo < 1e-7 * max(hi, 1) or hi > 1e4:
                raise R.Reject("singular")
        return M.mean_joint(blocks), K, [len(f.noise) for f in fs]

    def f_ms(self, op):
        """Measures of a process, in order (the first is its primary measure)."""
        return list(self.fP[op["p"]])

    def f_show(self, op):
        return None

    def f_drop(self, op):
        self.dropped.add((op["kind"], op["i"]))

    f_gc = f_ghost = f_show

    # ---- apply one operation to the real library ----

    def run(self, op):
        return getattr(self, "r_" + op["o"])(op)

    def g(self, kind, i):
        return self.r[kind][i]

    def _track_input(self, a):
        if isinstance(a, np.ndarray):
            self.inputs.append((weakref.ref(a), a.copy()))
        return a

    def changed_input(self):
        for i, (r, c) in enumerate(self.inputs):
            a = r()
            if a is None:
                continue
            if a.shape != c.shape or a.dtype != c.dtype or not np.array_equal(a, c, equal_nan=True):
                return i
        return None

    def r_x(self, op):
        t = int if op["f"][0] == "i" else float
        v = np.array(op["v"], dtype=t)
        f = op["f"][-1]
        if f == "s":
            self.r["x"][op["id"]] = t(op["v"][0]) + t(0)
            return
        if f == "c":
            v = v.reshape(-1, 1)
        elif f == "m":
            v = v.reshape(-1, 2)
        self.r["x"][op["id"]] = self._track_input(arr(v))

    def r_y(self, op):
        v = np.array([np.nan if u is None else u for u in op["v"]], dtype=float)
        f = op.get("f", "v")
        if f in ("c", "D"):
            v = v.reshape(-1, 1)
        v = arr(v)
        self._track_input(v)
        if f == "D":
            v = matrix.Dense(v)
        self.r["y"][op["id"]] = v

    def r_measure(self, op):
        self.r["M"][op["id"]] = stheno.Measure()

    def r_gp(self, op):
        args = []
        if op["mean"][0] != "none":
            args.append(real_mean(op["mean"]))
        args.append(real_kernel(op["kernel"]))
        kw = {}
        if op.get("name"):
            kw["name"] = op["name"]
        how = op.get("how", "kw")
        if op.get("m"):
            M = self.g("M", op["m"])
            if how == "ctx":
                with M:
                    p = stheno.GP(*args, **kw)
            else:
                p = stheno.GP(*args, measure=M, **kw)
        else:
            p = stheno.GP(*args, **kw)
            self.r["M"][op["nm"]] = p.measure
        self.r["P"][op["id"]] = p

    def r_bin(self, op):
        p, q = self.g("P", op["p"]), self.g("P", op["q"])
        if op.get("via"):
            M = self.g("M", op["via"])
            res = getattr(M, {"add": "sum", "mul": "mul"}[op["k"]])(stheno.GP(), p, q)
        elif op["k"] == "add":
            res = p + q
        elif op["k"] == "sub":
            res = p - q
        else:
            res = p * q
        self.r["P"][op["id"]] = res

    def r_un(self, op):
        p, k, a = self.g("P", op["p"]), op["k"], op.get("a")
        if op.get("via"):
            M = self.g("M", op["via"])
            new = stheno.GP()
            if op.get("add"):
                # The user states the rules.
                if k == "mul_c":
                    res = M.add_gp(
                        M.means[p] * a, M.kernels[p] * a**2, lambda j: M.kernels[p, j] * a,
                        *([lambda i: M.kernels[i, p] * a] if op["add"] > 1 else []),
                    )
                elif k == "shift":
                    a = _num(a)
                    res = M.add_gp(
                        M.means[p].shift(a), M.kernels[p].shift(a), lambda j: M.kernels[p, j].shift(a, 0),
                        *([lambda i: M.kernels[i, p].shift(0, a)] if op["add"] > 1 else []),
                    )
                else:
                    raise Skip()
            elif k == "add_c":
                res = M.sum(new, p, num(a))
            elif k == "radd_c":
                res = M.sum(new, num(a), p)
            elif k == "add_f":
                res = M.sum(new, p, user_fn(a))
            elif k == "radd_f":
                res = M.sum(new, user_fn(a), p)
            elif k == "mul_c":
                res = M.mul(new, p, num(a))
            elif k == "rmul_c":
                res = M.mul(new, num(a), p)
            elif k == "mul_f":
                res = M.mul(new, p, user_fn(a))
            elif k == "rmul_f":
                res = M.mul(new, user_fn(a), p)
            elif k == "shift":
                res = M.shift(new, p, _num(a))
            elif k == "stretch":
                res = M.stretch(new, p, _num(a))
            elif k == "select":
                res = M.select(new, p, *a)
            elif k == "transform":
                res = M.transform(new, p, user_fn(a, "tf", R.TFS))
            else:
                raise Skip()
        elif k == "add_c":
            res = p + num(a)
        elif k == "radd_c":
            res = a + p
        elif k == "sub_c":
            res = p - num(a)
        elif k == "rsub_c":
            res = a - p
        elif k == "add_f":
            res = p + user_fn(a)
        elif k == "radd_f":
            res = user_fn(a) + p
        elif k == "rsub_f":
            res = user_fn(a) - p
        elif k == "mul_c":
            res = p * num(a)
        elif k == "rmul_c":
            res = a * p
        elif k == "div_c":
            res = p / num(a)
        elif k == "neg":
            res = -p
        elif k == "mul_f":
            res = p * user_fn(a)
        elif k == "rmul_f":
            res = user_fn(a) * p
        elif k == "shift":
            res = p.shift(_num(a))
        elif k == "stretch":
            res = p.stretch(_num(a))
        elif k == "select":
            res = p.select(*a)
        elif k == "transform":
            res = p.transform(user_fn(a, "tf", R.TFS))
        elif k == "diff":
            res = p.diff(a) if a or op.get("dim") else p.diff()
        elif k == "diffa":
            res = p.diff_approx(deriv=a[0], order=a[1])
        else:
            raise ValueError(k)
        self.r["P"][op["id"]] = res

    def r_apply(self, op):
        self.r["P"][op["id"]] = self.g("M", op["m"])(self.g("P", op["p"]))

    def r_cross(self, op):
        ps = [self.g("P", p) for p in op["ps"]]
        if op.get("via"):
            self.r["P"][op["id"]] = self.g("M", op["via"]).cross(stheno.GP(), *ps)
        else:
            self.r["P"][op["id"]] = stheno.cross(*ps)

    def _noise(self, spec):
        n = noise_real(spec)
        if isinstance(n, np.ndarray):
            self._track_input(n)
        elif n is not None and spec[0] in ("D", "M"):
            self._track_input(n.diag if spec[0] == "D" else n.mat)
        return n

    def r_fdd(self, op):
        p = self.g("P", op["p"])
        if op.get("parts"):
            x = tuple(self.g("D", d) for d in op["parts"])
        else:
            x = self.g("x", op["x"])
        noise = self._noise(op.get("noise"))
        self.r["D"][op["id"]] = p(x) if noise is None else p(x, noise)

    def r_mfdd(self, op):
        d = self.g("M", op["m"])(self.g("D", op["d"]))
        self.r["D"][op["id"]] = d
        self.r["P"][op["np"]] = d.p

    def r_comb(self, op):
        d = stheno.combine(*[self.g("D", i) for i in op["ds"]])
        self.r["D"][op["id"]] = d
        self.r["P"][op["np"]] = d.p

    def _pairs(self, op):
        return [(self.g("D", d), self.g("y", y)) for d, y in op["items"]]

    def _make_obs(self, op):
        cls = getattr(stheno, OBS[op["method"]])
        pairs = self._pairs(op)
        args = []
        if op["method"] != "exact":
            us = [self.g("D", d) for d in op["us"]]
            args.append(us[0] if len(us) == 1 and not op.get("ut") else tuple(us))
        if len(pairs) == 1 and not op.get("t"):
            args += list(pairs[0])
        else:
            args += pairs
        return cls(*args)

    def r_obs(self, op):
        self.r["O"][op["id"]] = self._make_obs(op)

    def _cond_args(self, op):
        if op.get("obs"):
            return (self.g("O", op["obs"]),)
        pairs = self._pairs(op)
        form = op.get("form", "pairs")
        if form == "fdd" and len(pairs) == 1:
            return pairs[0]
        return tuple(pairs)

    def _cond(self, target, op):
        args = self._cond_args(op)
        form = op.get("form", "pairs")
        if form == "or":
            if len(args) == 1:
                return target | args[0]
            return target | args
        return target.condition(*args)

    def r_cond(self, op):
        self.r["M"][op["id"]] = self._cond(self.g("M", op["m"]), op)

    def r_pcond(self, op):
        p = self._cond(self.g("P", op["p"]), op)
        self.r["P"][op["id"]] = p
        self.r["M"][op["nm"]] = p.measure

    def r_qm(self, op):
        M, p, x = self.g("M", op["m"]), self.g("P", op["p"]), self.g("x", op["x"])
        if op.get("pm"):
            return dense(p.mean(x)) if p.measure is M else dense(M.means[p](x))
        return dense(M.means[p](x))

    def r_qk(self, op):
        M, p, q = self.g("M", op["m"]), self.g("P", op["p"]), self.g("P", op["q"])
        x = self.g("x", op["x"])
        if p is q and op.get("pm"):
            k = p.kernel if p.measure is M else M.kernels[p]
        else:
            k = M.kernels[p, q]
        args = (x,) if not op.get("y2") else (x, self.g("x", op["y2"]))
        return dense(k.elwise(*args) if op["ew"] else k(*args))

    def r_acc(self, op):
        d = self.g("D", op["d"])
        y = self.g("y", op["y"]) if op.get("y") else None
        return [acc_real(k, d, y) for k in op["ks"]]

    def r_two(self, op):
        d, e, k = self.g("D", op["d"]), self.g("D", op["e"]), op["k"]
        if k == "nsum":
            n = d + e
            return [dense(n.mean), dense(n.var)]
        return dense(d.kl(e) if k == "kl" else d.w2(e))

    def r_fresh(self, op):
        M, p, x = self.g("M", op["m"]), self.g("P", op["p"]), self.g("x", op["x"])
        noise = self._noise(op.get("noise"))
        q = p if p.measure is M else M(p)
        d = q(x) if noise is None else q(x, noise)
        y = self.g("y", op["y"]) if op.get("y") else None
        return [acc_real(k, d, y) for k in op["ks"]]

    def r_lp(self, op):
        form = op["form"]
        if form == "obs":
            return dense(self.g("M", op["m"]).logpdf(self.g("O", op["obs"])))
        pairs = self._pairs(op)
        if form == "d":
            return dense(pairs[0][0].logpdf(pairs[0][1]))
        M = self.g("M", op["m"])
        if form == "m1" and len(pairs) == 1:
            return dense(M.logpdf(*pairs[0]))
        return dense(M.logpdf(*pairs))

    def r_elbo(self, op):
        o, M = self.g("O", op["obs"]), self.g("M", op["m"])
        if op.get("lp"):
            return dense(M.logpdf(o))
        return dense(o.elbo(M))

    def sample_call(self, op, state):
        ds = [self.g("D", d) for d in op["ds"]]
        n = op.get("n")
        args = ([state] if state is not None else []) + ([n] if n is not None else [])
        if op.get("m"):
            out = self.g("M", op["m"]).sample(*args, *ds)
            if state is not None:
                st, out = out[0], list(out[1:])
            else:
                st, out = None, list(out) if isinstance(out, tuple) else [out]
        else:
            kw = {}
            if op.get("noise") is not None:
                kw["noise"] = op["noise"]
            out = ds[0].sample(*args, **kw)
            if state is not None:
                st, out = out[0], [out[1]]
            else:
                st, out = None, [out]
        return st, [dense(o) for o in out]

    def r_samp(self, op):
        """Recover the affine map from standard normals to the samples, and one seeded draw."""
        how = op.get("how", "state")
        res = {}
        if how == "global":
            np.random.seed(op["seed"])
            st, out = self.sample_call(op, None)
            res["global"] = out
            res["gstate"] = np.random.random.__self__.randn()
            s = seams.SimRandomState(op["seed"])
            st, out = self.sample_call(op, s)
            res["draw"] = out
            res["after"] = s.randn()
            return res
        before = np.random.random.__self__.get_state()
        s = seams.SimRandomState(op["seed"])
        st, out = self.sample_call(op, s)
        res["draw"] = out
        res["shapes"] = [o.shape for o in out]
        res["same_state"] = st is s
        T = s.count
        res["T"] = T
        after = np.random.random.__self__.get_state()
        res["global_untouched"] = bool(
            before[2] == after[2] and np.array_equal(before[1], after[1])
        )
        if self.probe_samples and T <= 60:
            z = np.random.RandomState(op["seed"]).standard_normal(T) if T else np.zeros(0)
            outs = []
            for k in range(-1, T):
                s = seams.SimRandomState(0)
                s.script = lambda start, n, k=k: [1.0 if start + j == k else 0.0 for j in range(n)]
                outs.append(np.concatenate(self.sample_call(op, s)[1], axis=-2))
            res["base"] = outs[0]
            res["map"] = [o - outs[0] for o in outs[1:]]
            res["z"] = z
        return res

    def r_ms(self, op):
        """Primary measure of a process and all measures in which it can be evaluated."""
        p = self.g("P", op["p"])
        primary = [i for i, M in self.r["M"].items() if M is p.measure]
        members = []
        for i, M in self.r["M"].items():
            try:
                M.means[p], M.kernels[p]
            except Exception:
                continue
            members.append(i)
        return [(primary + ["?"])[0], sorted(members)]

    def r_show(self, op):
        kind, i = op["kind"], op["i"]
        if i in self.r[kind]:
            o = self.g(kind, i)
            return [len(str(o)) > 0, len(repr(o)) > 0] and None
        raise Skip()

    def r_drop(self, op):
        self.r[op["kind"]].pop(op["i"], None)

    def r_gc(self, op):
        gc.collect()

    def r_ghost(self, op):
        """Unrelated activity in the same interpreter."""
        objs = self.ghosts
        if op.get("free"):
            objs.clear()
        for j in range(op.get("n", 1)):
            kind = op.get("what", "model")
            if kind == "measure":
                objs.append(stheno.Measure())
            elif kind == "gp":
                objs.append(stheno.GP(stheno.EQ()))
            elif kind == "member" and op.get("m") in self.r["M"]:
                # One more process of a measure of the program, which nobody looks at.
                objs.append(stheno.GP(2.0, 3 * stheno.Linear(), measure=self.r["M"][op["m"]]))
            else:
                M = stheno.Measure()
                p = stheno.GP(1.5, stheno.Matern32(), measure=M)
                q = p + stheno.GP(stheno.EQ(), measure=M)
                x = np.linspace(0, 1 + j, 3)
                d = q(x, 0.3)
                post = M | (d, np.ones(3))
                dense(post(p)(x).var)
                dense(d.mean)
                objs.append([M, p, q, d, post][j % 5])
        if op.get("drop"):
            objs.clear()


def _blockdiag(ms):
    n = sum(len(m) for m in ms)
    N = np.zeros((n, n))
    i = 0
    for m in ms:
        N[i : i + len(m), i : i + len(m)] = m
        i += len(m)
    return N


def _take(X, dims):
    if max(dims) >= X.shape[1]:
        raise R.Reject("dims")
    return X[:, list(dims)]


def _fit(a, X):
    if isinstance(a, list) and X.shape[1] != len(a):
        raise R.Reject("dims")
    return np.asarray(a)


def _num(a):
    return arr(np.array(a, dtype=float)) if isinstance(a, list) else num(a)


R.tf_ = R.tf = lambda spec: R.TFS[spec[0]](spec[1])

# --------------------------------------------------------------------------------------------------
# Accessors of normal distributions.

ACC = [
    "mean", "var", "var_diag", "mean_var", "marginals", "bounds", "m2", "dim", "dtype", "zero",
    "entropy", "diag", "logpdf", "str", "add", "mul", "lmat", "rmat", "neg", "self_kl", "std_kl", "std_w2",
    "nadd", "sub",
]


FACTOR = {"entropy", "logpdf", "self_kl", "std_kl", "std_w2"}
DIAG = {"var_diag", "marginals", "bounds", "diag"}


def _mat(n):
    return (np.arange(2 * n, dtype=float).reshape(2, n) % 5 - 2.0) / 2.0


def acc_real(k, d, y=None):
    if k == "mean":
        return dense(d.mean)
    if k == "var":
        return dense(d.var)
    if k == "var_diag":
        return dense(d.var_diag)
    if k == "mean_var":
        m, v = d.mean_var
        return [dense(m), dense(v)]
    if k == "marginals":
        m, v = d.marginals()
        return [dense(m), dense(v)]
    if k == "bounds":
        return [dense(v) for v in d.marginal_credible_bounds()]
    if k == "m2":
        return dense(d.m2)
    if k == "dim":
        return int(d.dim)
    if k == "dtype":
        # Integer inputs can give integers.
        if BACK is not None:
            return "float64" if any(t in str(d.dtype) for t in ("int64", "float64")) else str(d.dtype)
        return "float64" if np.dtype(d.dtype) in (np.int64, np.float64) else str(np.dtype(d.dtype))
    if k == "zero":
        return bool(d.mean_is_zero)
    if k == "entropy":
        return dense(d.entropy())
    if k == "diag":
        n = d.diagonalise()
        return [dense(n.mean), dense(n.var)]
    if k == "logpdf":
        return dense(d.logpdf(y))
    if k == "str":
        str(d), repr(d)
        return None
    if k == "add":
        n = d + arr(1.5)
        return [dense(n.mean), dense(n.var)]
    if k == "sub":
        n = d - arr(0.5)
        return [dense(n.mean), dense(n.var)]
    if k == "nadd":
        n = d + d
        return [dense(n.mean), dense(n.var)]
    if k == "mul":
        n = 2.0 * d
        return [dense(n.mean), dense(n.var)]
    if k == "neg":
        n = -d
        return [dense(n.mean), dense(n.var)]
    if k == "lmat":
        n = d.lmatmul(arr(_mat(int(d.dim))))
        return [dense(n.mean), dense(n.var)]
    if k == "rmat":
        n = d.rmatmul(arr(_mat(int(d.dim)).T))
        return [dense(n.mean), dense(n.var)]
    if k in ("self_kl", "std_kl", "std_w2"):
        n = int(d.dim)
        if k == "self_kl":
            return dense(d.kl(d))
        o = stheno.Normal(arr(0.5 * np.ones((n, 1))), arr(2.0 * np.eye(n)))
        return dense(d.kl(o)) if k == "std_kl" else dense(d.w2(o))
    raise ValueError(k)


def sqrtm(S):
    w, V = np.linalg.eigh((S + S.T) / 2)
    return (V * np.sqrt(np.maximum(w, 0))) @ V.T


def acc_ref(k, mu, S, y=None):
    n = len(mu)
    mean = mu[:, None]
    vd = np.diag(S).copy()
    if k == "mean":
        return mean
    if k == "var":
        return S
    if k == "var_diag":
        return vd
    if k == "mean_var":
        return [mean, S]
    if k == "marginals":
        return [mu, np.maximum(vd, 0)]
    if k == "bounds":
        e = 1.96 * np.sqrt(np.maximum(vd, 0))
        return [mu, mu - e, mu + e]
    if k == "m2":
        return S + np.outer(mu, mu)
    if k == "dim":
        return n
    if k == "dtype":
        return "float64"
    if k == "zero":
        return ("any",)
    if k == "str":
        return None
    if k == "diag":
        return [mean, np.diag(vd)]
    if k == "add":
        return [mean + 1.5, S]
    if k == "sub":
        return [mean - 0.5, S]
    if k == "nadd":
        return [2 * mean, 2 * S]
    if k == "mul":
        return [2 * mean, 4 * S]
    if k == "neg":
        return [-mean, S]
    if k in ("lmat", "rmat"):
        A = _mat(n)
        return [A @ mean, A @ S @ A.T]
    if k in ("entropy", "logpdf", "self_kl", "std_kl", "std_w2"):
        if n == 0:
            raise R.Reject("empty")
        R.check_cond(S)
    if k == "entropy":
        return np.asarray(0.5 * np.linalg.slogdet(2 * np.pi * np.e * S)[1])
    if k == "logpdf":
        if y is None or len(y) != n:
            raise R.Reject("size")
        return np.asarray(R.logpdf(mu, S, y))
    if k == "self_kl":
        return np.asarray(0.0)
    if k == "std_kl":
        r = mu - 0.5
        return np.asarray(
            0.5 * (np.trace(S) / 2 + r @ r / 2 - n + n * np.log(2) - np.linalg.slogdet(S)[1])
        )
    if k == "std_w2":
        r = mu - 0.5
        root = sqrtm(2 * S)
        v = np.sum(r * r) + np.trace(S) + 2 * n - 2 * np.trace(root)
        return np.asarray(np.sqrt(max(v, 0)))
    raise ValueError(k)


def two_ref(k, a, b):
    (mu, S), (nu, T) = a, b
    if len(mu) != len(nu) or not len(mu):
        raise R.Reject("size")
    if k == "nsum":
        return [(mu + nu)[:, None], S + T]
    r = mu - nu
    if k == "kl":
        iT = np.linalg.inv(T)
        return np.asarray(
            0.5 * (np.trace(iT @ S) + r @ iT @ r - len(mu) + np.linalg.slogdet(T)[1] - np.linalg.slogdet(S)[1])
        )
    root = sqrtm(S)
    v = r @ r + np.trace(S) + np.trace(T) - 2 * np.trace(sqrtm(root @ T @ root))
    return np.asarray(np.sqrt(max(v, 0)))


def acc_differs(k, a, b, tol=None):
    if k in ("kl", "nsum"):
        return differs(a, b, tol=tol)
    if k == "zero":
        return None if isinstance(a, bool) else "not a boolean"
    if k in ("dim",):
        return None if a == b else f"{a!r} instead of {b!r}"
    if k == "bounds":
        # Square roots amplify rounding near zero.
        d = differs(a[0], b[0], tol=tol)
        if d:
            return d
        return differs(a[1:], b[1:], tol=max(tol or 0, 2e-5) if not tol else 0.1)
    if k in ("std_w2", "w2"):
        return differs(a**2, b**2, scale=max(1.0, float(b) ** 2), tol=1e-4)
    return differs(a, b, tol=tol)
