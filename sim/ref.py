"""Executable reference model: Gaussian processes as explicit linear functionals of root processes.

Written from the definitions in the documentation with dense NumPy only; shares no code with the library.
A process is, per output and per measure, `mean(x) + sum_t coef_t(x) * root_t(phi_t(x))`. A measure knows
the joint covariance of its roots: independent kernels in a prior, the Gaussian conditional of the parent
measure in a posterior, the pseudo-point approximation in an approximate posterior.
"""
import numpy as np


# Whether the reference also answers where the library is known not to (for the recorded findings).
BEYOND = [False]


class Reject(Exception):
    """The case lies outside the domain in which the comparison is meaningful (generator only)."""


class Refused(Exception):
    """The operation must be refused."""


# --------------------------------------------------------------------------------------------------
# User-supplied functions: index, parameter -> function of a (..., n, d) array giving (..., n, 1).

FNS = [
    lambda a: lambda x: a * x[..., :1],
    lambda a: lambda x: np.sin(a * np.sum(x, axis=-1, keepdims=True)) + 0.5,
    lambda a: lambda x: a * x[..., -1:] ** 2 + 1.0,
    lambda a: lambda x: a * np.exp(-0.5 * x[..., :1] ** 2),
    lambda a: lambda x: a * np.ones(x.shape[:-1] + (1,)),
]
# Input transforms: (..., n, d) -> (..., n, d).
TFS = [
    lambda a: lambda x: a * x + 0.3,
    lambda a: lambda x: x + 0.4 * np.sin(a * x),
    lambda a: lambda x: np.tanh(a * x) * 2.0,
    lambda a: lambda x: x[..., ::-1] * a,
]


def fn(spec):
    return FNS[spec[0]](spec[1])


def tf(spec):
    return TFS[spec[0]](spec[1])


def d2(X, Y):
    return np.maximum(
        np.sum(X**2, 1)[:, None] + np.sum(Y**2, 1)[None, :] - 2 * X @ Y.T, 0
    )


def dd(X, Y):
    # Differences instead of the expanded square: no cancellation.
    D = X[:, None, :] - Y[None, :, :]
    return np.sum(D * D, axis=-1)


def kernel(spec):
    """Kernel from a specification: a function of two (n, d) arrays."""
    t = spec[0]
    if t == "eq":
        return lambda X, Y: np.exp(-0.5 * dd(X, Y))
    if t == "m12":
        return lambda X, Y: np.exp(-np.sqrt(dd(X, Y)))
    if t == "m32":
        def f(X, Y):
            r = np.sqrt(3 * dd(X, Y))
            return (1 + r) * np.exp(-r)
        return f
    if t == "m52":
        def f(X, Y):
            q = dd(X, Y)
            r = np.sqrt(5 * q)
            return (1 + r + 5 * q / 3) * np.exp(-r)
        return f
    if t == "rq":
        return lambda X, Y: (1 + 0.5 * dd(X, Y) / spec[1]) ** (-spec[1])
    if t == "lin":
        return lambda X, Y: X @ Y.T
    if t == "one":
        return lambda X, Y: np.ones((len(X), len(Y)))
    if t == "zero":
        return lambda X, Y: np.zeros((len(X), len(Y)))
    if t == "num":  # GP(mean, 3.0): a constant kernel.
        return lambda X, Y: spec[1] * np.ones((len(X), len(Y)))
    if t == "fn":  # GP(mean, function): function(x) * function(y).
        f = fn(spec[1])
        return lambda X, Y: f(X) @ f(Y).T
    if t == "scale":
        k = kernel(spec[2])
        return lambda X, Y: spec[1] * k(X, Y)
    if t == "stretch":
        k = kernel(spec[2])
        return lambda X, Y: k(X / spec[1], Y / spec[1])
    if t == "sum":
        a, b = kernel(spec[1]), kernel(spec[2])
        return lambda X, Y: a(X, Y) + b(X, Y)
    if t == "prod":
        a, b = kernel(spec[1]), kernel(spec[2])
        return lambda X, Y: a(X, Y) * b(X, Y)
    if t == "track":
        return kernel(spec[2])
    raise ValueError(spec)


def degenerate(spec):
    return spec[0] in ("lin", "one", "zero", "num", "fn") or any(
        degenerate(s) for s in spec[1:] if isinstance(s, list) and s and isinstance(s[0], str)
    )


def mean(spec):
    """Mean function: a function of an (n, d) array giving (n,)."""
    t = spec[0]
    if t in ("none", "zero"):
        return lambda X: np.zeros(len(X))
    if t == "num":
        return lambda X: spec[1] * np.ones(len(X))
    if t == "fn":
        f = fn(spec[1])
        return lambda X: f(X)[:, 0]
    if t == "sum":
        a, b = mean(spec[1]), mean(spec[2])
        return lambda X: a(X) + b(X)
    raise ValueError(spec)


# --------------------------------------------------------------------------------------------------


class Comp:
    """One output of a process under one measure."""

    __slots__ = ("mean", "terms")

    def __init__(self, mean, terms):
        self.mean = mean
        self.terms = terms  # [(scale, coef function or None, root key, input map or None)]


def _compose(phi, g):
    """x -> phi(g(x))."""
    if phi is None:
        return g
    return lambda X: phi(g(X))


def _after(f, g):
    if f is None:
        return None
    return lambda X: f(g(X))


MAXTERMS = 14
MAXCOST = 8e3


class RM:
    """Reference measure."""

    def __init__(self, kind="prior", parent=None):
        self.kind = kind
        self.parent = parent
        self.rep = {}  # pid -> [Comp]
        self.order = []
        self.roots = {}  # root key -> kernel (independent roots)
        self.nroots = 0
        self.data = None
        self.how = {}  # pid -> how it was made: (kind, operands)
        self._ok = {}
        self.structured = set()
        self.cancels = set()
        self.sroots = {}  # independent roots with low-rank or constant kernels
        self.depth = 0 if parent is None else parent.depth + 1
        # The library evaluates covariances of covariances recursively. An estimate of how often it evaluates a
        # kernel for one covariance: `factor * weights[p] * weights[q]`.
        self.factor = 1.0 if parent is None else parent.factor
        self.weights = {}

    # Roots.

    def new_root(self, k):
        self.nroots += 1
        key = ("r", self.nroots)
        self.roots[key] = k
        return key

    def root_cov(self, a, b, X, Y):
        if X.shape[1] != Y.shape[1]:
            raise Reject("dims")
        if a[0] == "r" or b[0] == "r":
            if a == b:
                return self.roots[a](X, Y)
            return np.zeros((len(X), len(Y)))
        return self.inherited_cov(a[1:], b[1:], X, Y)

    def inherited_cov(self, a, b, X, Y):
        P = self.parent
        k = P.cov1(a, b, X, Y)
        D = self.data
        if D is None or D.n == 0:
            return k
        self.reach(a[0])
        self.reach(b[0])
        A = P.cov_blocks(D.zblocks, a, X)  # (z, X)
        C = A if (a == b and X is Y) else P.cov_blocks(D.zblocks, b, Y)
        return k - A.T @ D.W @ C

    def reach(self, p):
        """The data processes must go with a process."""
        for h in self.data.hids:
            if not self.parent.supported(h, p):
                raise Reject("multi-output")

    # Processes.

    def comp(self, pid, c):
        return self.rep[pid][c]

    def mean1(self, a, X):
        return self.rep[a[0]][a[1]].mean(X)

    def cov1(self, a, b, X, Y):
        """Covariance between output a = (pid, index) at X and output b at Y."""
        if not self.supported(a[0], b[0]):
            raise Reject("multi-output")
        out = np.zeros((len(X), len(Y)))
        cb = []
        for s2, f2, r2, m2 in self.rep[b[0]][b[1]].terms:
            Y2 = Y if m2 is None else m2(Y)
            w2 = None if f2 is None else f2(Y)[:, 0]
            cb.append((s2, w2, r2, Y2))
        for s1, f1, r1, m1 in self.rep[a[0]][a[1]].terms:
            X1 = X if m1 is None else m1(X)
            w1 = None if f1 is None else f1(X)[:, 0]
            for s2, w2, r2, Y2 in cb:
                if (r1[0] == "r" or r2[0] == "r") and r1 != r2:
                    continue
                K = s1 * s2 * self.root_cov(r1, r2, X1, Y2)
                if w1 is not None:
                    K = w1[:, None] * K
                if w2 is not None:
                    K = K * w2[None, :]
                out = out + K
        return out

    def cov_blocks(self, blocks, b, Y):
        return np.concatenate(
            [self.cov1(a, b, X, Y) for a, X in blocks]
            or [np.zeros((0, len(Y)))],
            axis=0,
        )

    def cov_joint(self, blocks1, blocks2):
        return np.concatenate(
            [self.cov_blocks(blocks1, b, Y) for b, Y in blocks2]
            or [np.zeros((sum(len(X) for _, X in blocks1), 0))],
            axis=1,
        )

    def mean_joint(self, blocks):
        return np.concatenate([self.mean1(a, X) for a, X in blocks] or [np.zeros(0)])

    def dims(self, pid):
        return len(self.rep[pid])

    def blocks(self, pid, X):
        """Flatten a process at an input into single-output blocks. X may be a list of (pid, X) pairs,
        which are the inputs of a product at given parts."""
        if isinstance(X, list):
            return [b for q, Xq in X for b in self.blocks(q, Xq)]
        return [((pid, c), X) for c in range(self.dims(pid))]

    def mean(self, pid, X):
        return self.mean_joint(self.blocks(pid, X))

    def cov(self, p, q, X, Y):
        return self.cov_joint(self.blocks(p, X), self.blocks(q, Y))

    # Construction.

    def _add(self, pid, comps, kind="gp", ops=()):
        for c in comps:
            if len(c.terms) > MAXTERMS:
                raise Reject("too many terms")
        if not all(o not in self.how or self.sound(o) for o in ops) or not all(self.supported(o, u) for o in ops for u in ops):
            raise Reject("multi-output")
        w = sum(self.weights.get(o, 1.0) for o in ops) * dict(prod=2.0, comb=self.ncomb).get(kind, 1.0) or 1.0
        self.afford(self.factor * w ** 2)
        self.weights[pid] = w
        self.rep[pid] = comps
        self.how[pid] = (kind, tuple(ops), len(self.how))
        self.order.append(pid)

    ncomb = 3.0

    def afford(self, cost):
        if cost > MAXCOST:
            raise Reject("expensive")

    # The domain of multi-output processes. A Cartesian product goes with every other process. Multi-output
    # processes that are derived from products go with the processes that existed before them.

    def supported(self, p, q):
        if BEYOND[0]:
            return True
        key = (p, q) if str(p) <= str(q) else (q, p)
        if key not in self._ok:
            self._ok[key] = self._supported(p, q)
        return self._ok[key]

    def sound(self, p):
        """Whether the process itself is in the domain."""
        if BEYOND[0]:
            return True
        key = (p, None)
        if key not in self._ok:
            kind, ops, _ = self.how[p]
            if kind == "in":
                D = self.data
                hids = D.hids if D is not None else ()
                ok = self.parent.sound(p) and all(self.parent.supported(h, p) for h in hids)
            else:
                ok = self.supported(p, p) and all(o not in self.how or self.sound(o) for o in ops)
            self._ok[key] = ok
        return self._ok[key]

    def _supported(self, p, q):
        if p not in self.how or q not in self.how:
            return True
        if p == q:
            kind, ops, _ = self.how[p]
            if kind == "in":
                return self.parent.supported(p, p)
            return all(self.supported(o, u) for o in ops for u in ops)
        if self.how[p][2] > self.how[q][2]:
            p, q = q, p
        # Now `q` was added last.
        (kp, op, _), (kq, oq, _) = self.how[p], self.how[q]
        mp, mq = len(self.rep[p]) > 1, len(self.rep[q]) > 1
        prod_p, prod_q = kp == "cross", kq == "cross"
        if not (mp or mq or prod_p or prod_q):
            return True
        if (p in self.cancels and mq and not prod_q) or (q in self.cancels and mp and not prod_p):
            return False
        if kp == "in" and kq == "in":
            return self.parent.supported(p, q)
        if prod_q:
            return all(self.supported(p, o) for o in oq)
        if prod_p and not mq:
            return all(self.supported(o, q) for o in op)
        if prod_p:
            return kq == "lin" and all(self.supported(p, o) for o in oq)
        if kq in ("gp", "prod", "in", "mulf"):
            return False
        if kp == "in" and mq and kq != "lin" and self.parent.is_cross(p):
            return False
        return all(self.supported(p, o) for o in oq)

    def is_cross(self, p):
        k = self.how[p][0]
        return self.parent.is_cross(p) if k == "in" else k == "cross"

    def tainted(self, p):
        """Involves a Cartesian product."""
        k, ops, _ = self.how[p]
        if k == "in":
            return self.parent.tainted(p)
        return k == "cross" or any(self.tainted(o) for o in ops)

    def elwise_ok(self, p):
        """Whether the diagonal can be computed without the whole matrix: not for combinations of different
        products, which the library refuses."""
        k, ops, _ = self.how[p]
        if k == "in":
            return self.parent.elwise_ok(p)
        if k == "cross":
            return all(self.elwise_ok(o) for o in ops)
        if not all(self.elwise_ok(o) for o in ops):
            return False
        if len(ops) == 2 and ops[0] != ops[1] and any(self.tainted(o) for o in ops):
            return False
        if k == "comb" and self.tainted(p):
            return False
        return True

    def add_gp(self, pid, mean, k, structured=False):
        r = self.new_root(k)
        self._add(pid, [Comp(mean, [(1.0, None, r, None)])])
        if structured:
            self.structured.add(pid)
            self.sroots[r] = "simple"

    def rough(self, p):
        k, ops, _ = self.how[p]
        if k == "in":
            return self.parent.rough(p)
        return k == "comb" or any(self.rough(o) for o in ops)

    def low_rank(self, p):
        """May have a low-rank or constant variance, whose factorisation the matrix library refuses."""
        k, ops, _ = self.how[p]
        if k == "in":
            return self.parent.low_rank(p)
        return p in self.structured or any(self.low_rank(o) for o in ops)

    def root_structure(self, key):
        if key[0] == "in":
            return self.parent.structure(self.parent.rep[key[1]][key[2]])
        return self.sroots.get(key, "dense")

    def structure(self, comp):
        """Structure of the variance: `dense`, `simple` low rank or constant, or a `compound` of these."""
        kinds = [self.root_structure(t[2]) for t in comp.terms]
        if "dense" in kinds:
            return "dense"
        return kinds[0] if len(kinds) == 1 else "compound"

    def fragile(self, p):
        """Low-rank and constant variances are combined. They can cancel or be badly conditioned, which the matrix
        library does not detect."""
        kinds = [self.structure(c) for c in self.rep[p]]
        if "compound" in kinds:
            return True
        return len(kinds) > 1 and "simple" in kinds

    def copy(self, pid, p):
        kind, ops, _ = self.how[p]
        k = kind
        M = self
        while k == "in":
            M = M.parent
            k, ops, _ = M.how[p]
        if k == "cross":
            self._add(pid, list(self.rep[p]), "cross", ops)
        else:
            self._add(pid, list(self.rep[p]), "lin", [p])

    def sum2(self, pid, p, q, sign=1.0):
        a, b = self.rep[p], self.rep[q]
        if len(a) != len(b):
            raise Reject("dimensions")
        # The sizes of multi-output means and kernels that cancel symbolically are not inferred.
        cancels = False
        for u, v in zip(a, b):
            tot = {}
            for t, sg in [(t, 1.0) for t in u.terms] + [(t, sign) for t in v.terms]:
                tot[t[2]] = tot.get(t[2], 0.0) + sg * t[0]
            cancels = cancels or any(abs(w) < 1e-9 for w in tot.values())
        if len(a) > 1 and cancels and not BEYOND[0]:
            raise Reject("cancels")
        if cancels:
            self.cancels.add(pid)
        self._add(
            pid,
            [
                Comp(
                    lambda X, u=u, v=v: u.mean(X) + sign * v.mean(X),
                    u.terms + [(sign * s, f, r, m) for s, f, r, m in v.terms],
                )
                for u, v in zip(a, b)
            ],
            "lin",
            [p, q],
        )

    def affine(self, pid, p, scale=1.0, offset=None):
        """scale * p + offset(x)."""
        if offset is not None and self.dims(p) > 1:
            raise Reject("offset of multi-output process")
        self._add(
            pid,
            [
                Comp(
                    lambda X, u=u: scale * u.mean(X)
                    + (0.0 if offset is None else offset(X)),
                    [(scale * s, f, r, m) for s, f, r, m in u.terms],
                )
                for u in self.rep[p]
            ],
            "lin",
            [p],
        )

    def mulf(self, pid, p, g):
        """g(x) * p(x)."""
        if self.dims(p) > 1:
            raise Reject("function of multi-output process")

        def cf(f):
            if f is None:
                return g
            return lambda X: g(X) * f(X)

        self._add(
            pid,
            [
                Comp(
                    lambda X, u=u: g(X)[:, 0] * u.mean(X),
                    [(s, cf(f), r, m) for s, f, r, m in u.terms],
                )
                for u in self.rep[p]
            ],
            "mulf",
            [p],
        )

    def inmap(self, pid, p, g):
        """p(g(x))."""
        self._add(
            pid,
            [
                Comp(
                    _after(u.mean, g),
                    [(s, _after(f, g), r, _compose(m, g)) for s, f, r, m in u.terms],
                )
                for u in self.rep[p]
            ],
            "map",
            [p],
        )

    def prod(self, pid, p, q):
        """Moment matching of p * q."""
        if self.dims(p) > 1 or self.dims(q) > 1:
            raise Reject("product of multi-output processes")
        if len(self.rep[p][0].terms) > 4 or len(self.rep[q][0].terms) > 4:
            raise Reject("too many terms")
        u, v = self.rep[p][0], self.rep[q][0]
        a, b = Comp(u.mean, u.terms), Comp(v.mean, v.terms)
        # Freeze the two processes: names may be re-used.
        hp, hq = ("#", pid, 0), ("#", pid, 1)
        self.rep[hp], self.rep[hq] = [a], [b]

        def cov(i, j):
            return lambda X, Y: self.cov1((i, 0), (j, 0), X, Y)

        kpp, kqq, kpq, kqp = cov(hp, hp), cov(hq, hq), cov(hp, hq), cov(hq, hp)
        r = self.new_root(
            lambda X, Y: kpp(X, Y) * kqq(X, Y) + kpq(X, Y) * kqp(X, Y)
        )

        if "dense" not in (self.structure(a), self.structure(b)):
            self.sroots[r] = "compound"

        def times(f, mu):
            if f is None:
                return lambda X: mu(X)[:, None]
            return lambda X: mu(X)[:, None] * f(X)

        terms = [(s, times(f, b.mean), rr, m) for s, f, rr, m in a.terms]
        terms += [(s, times(f, a.mean), rr, m) for s, f, rr, m in b.terms]
        terms += [(1.0, None, r, None)]
        self._add(
            pid,
            [
                Comp(
                    lambda X: a.mean(X) * b.mean(X)
                    + (np.diag(kpq(X, X)) if len(X) else np.zeros(0)),
                    terms,
                )
            ],
            "prod",
            [p, q],
        )

    def cross(self, pid, ps):
        comps = [c for p in ps for c in self.rep[p]]
        if len(comps) > 6:
            raise Reject("too many outputs")
        self._add(pid, comps, "cross", ps)

    def lincomb(self, pid, p, coefs, maps):
        """sum_i coefs[i] * p(maps[i](x))."""
        if self.dims(p) > 1 and any(abs(c) < 1e-9 for c in coefs) and not BEYOND[0]:
            # Like sums that cancel.
            raise Reject("cancels")
        comps = []
        for u in self.rep[p]:
            terms = []
            for c, g in zip(coefs, maps):
                terms += [(c * s, _after(f, g), r, _compose(m, g)) for s, f, r, m in u.terms]

            def mean(X, u=u):
                return sum(c * u.mean(g(X)) for c, g in zip(coefs, maps))

            comps.append(Comp(mean, terms))
        self._add(pid, comps, "comb", [p])


class Data:
    pass


def psd_info(K):
    w = np.linalg.eigvalsh((K + K.T) / 2) if len(K) else np.ones(1)
    return w[0], w[-1]


def joint(M, items):
    """items: [(pid, X, noise matrix, y)]: data blocks, noise, values with lost values removed."""
    blocks = [b for p, X, _, _ in items for b in M.blocks(p, X)]
    n = sum(len(X) for _, X in blocks)
    N = np.zeros((n, n))
    i = 0
    for _, _, noise, _ in items:
        k = len(noise)
        N[i : i + k, i : i + k] = noise
        i += k
    if i != n:
        raise Reject("noise size")
    y = np.concatenate([y for _, _, _, y in items]) if items else np.zeros(0)
    keep = ~np.isnan(y)
    out, i = [], 0
    for a, X in blocks:
        k = keep[i : i + len(X)]
        i += len(X)
        out.append((a, X[k]))
    return out, N[np.ix_(keep, keep)], y[keep]


COND = 1e5


def check_cond(K, limit=None):
    if not len(K):
        return
    lo, hi = psd_info(K)
    if not np.all(np.isfinite(K)) or lo <= 0 or hi / lo > (limit or COND) or hi > 1e3 or lo < 1e-5:
        raise Reject("conditioning")


def condition(M, items, check=True, hids=()):
    """The exact posterior of M."""
    blocks, N, y = joint(M, items)
    R = RM("post", M)
    R.factor *= 1.0 + 2.0 * sum(M.weights[p] for p in {i[0] for i in items})
    D = Data()
    D.n = len(y)
    D.hids = hids
    D.zblocks = blocks
    if D.n:
        K = M.cov_joint(blocks, blocks) + N
        if check:
            check_cond(K)
        K = (K + K.T) / 2 if np.allclose(K, K.T) else K
        D.W = np.linalg.inv(K)
        D.v = D.W @ (y - M.mean_joint(blocks))
    R.data = D
    _inherit(R, M)
    return R


def _inherit(R, M):
    R.afford(R.factor * max(M.weights.values(), default=1.0) ** 2)
    for pid in M.order:
        comps = []
        for c in range(len(M.rep[pid])):
            def mean(X, a=(pid, c)):
                m = M.mean1(a, X)
                if R.data.n == 0:
                    return m
                R.reach(a[0])
                return m + M.cov_blocks(R.data.zblocks, a, X).T @ R.data.v

            comps.append(Comp(mean, [(1.0, None, ("in", pid, c), None)]))
        R.rep[pid] = comps
        R.weights[pid] = M.weights[pid]
        R.how[pid] = ("in", (), len(R.how))
        R.order.append(pid)


def pseudo(M, method, uitems, items, check=True, hids=()):
    """The approximate posterior of M and the objective."""
    zb, NZ, _ = joint(M, [(p, X, N, np.zeros(len(N))) for p, X, N in uitems])
    xb, N, y = joint(M, items)
    Kz = M.cov_joint(zb, zb) + NZ
    if check:
        check_cond(Kz)
    Kzx = M.cov_joint(zb, xb)
    Kx = M.cov_joint(xb, xb)
    lam = np.diag(N).copy()
    if check and len(lam) and lam.min() < 1e-3:
        raise Reject("noise too small")
    iKz = np.linalg.inv(Kz)
    Q = Kzx.T @ iKz @ Kzx
    corr = np.diag(Kx) - np.diag(Q)
    trace = 0.0
    if method == "vfe":
        trace = np.sum(corr / lam)
    elif method == "fitc":
        lam = lam + corr
    r = y - M.mean_joint(xb)
    S = Q + np.diag(lam)
    if check:
        check_cond(S, 1e7)
    sign, ld = np.linalg.slogdet(S) if len(y) else (1, 0.0)
    elbo = -0.5 * (ld + r @ np.linalg.solve(S, r) + len(y) * np.log(2 * np.pi)) if len(y) else 0.0
    elbo = elbo - 0.5 * trace
    Sig = Kz + (Kzx / lam) @ Kzx.T
    if check:
        check_cond(Sig, 1e7) if np.max(np.abs(Sig)) < 1e3 else None
    iSig = np.linalg.inv(Sig)
    R = RM("pseudo", M)
    R.factor *= 1.0 + 4.0 * sum(M.weights[p] for p in {i[0] for i in uitems})
    D = Data()
    D.n = max(len(Kz), 1) if len(Kz) else 0
    D.hids = hids
    D.zblocks = zb
    D.W = iKz - iSig
    # E[u] - m_z = Kz iSig Kzx lam^-1 r, so the weights are iSig Kzx lam^-1 r.
    D.v = iSig @ (Kzx @ (r / lam))
    R.data = D
    _inherit(R, M)
    return R, elbo


def logpdf(mu, K, y):
    keep = ~np.isnan(y)
    if not keep.any():
        return 0.0
    r = (y - mu)[keep]
    S = K[np.ix_(keep, keep)]
    return -0.5 * (
        np.linalg.slogdet(S)[1] + r @ np.linalg.solve(S, r) + len(r) * np.log(2 * np.pi)
    )
