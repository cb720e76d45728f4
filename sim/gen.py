"""Seeded workload generator.

Several simulated clients use one shared set of models through the public API. Which client acts, what it
does, and all parameters come from one pseudo-random generator. Operations are accepted if the reference
model can say what must happen (a value, or a refusal).
"""
import random

import numpy as np

from . import ref as R
from . import world

BASE = dict(
    measure=0.3, gp=2.0, un=2.0, bin=2.0, apply=0.4, cross=0.6, fdd=2.5, mfdd=0.3, comb=0.3, obs=0.8,
    cond=1.2, pcond=0.5, qm=1.5, qk=2.5, acc=2.0, fresh=1.5, lp=0.8, elbo=0.5, samp=0.7, ms=0.5, show=0.4,
    drop=0.3, gc=0.2, moobs=0.1, joint=0.15,
)

UN = dict(
    add_c=1, radd_c=0.6, sub_c=0.6, rsub_c=0.6, add_f=0.7, radd_f=0.4, rsub_f=0.4, mul_c=1, rmul_c=0.8,
    div_c=0.6, neg=0.7, mul_f=0.8, rmul_f=0.6, shift=1, stretch=1, select=0.7, transform=0.7, diffa=0.25,
)
VIA = {
    "add_c", "radd_c", "add_f", "radd_f", "mul_c", "rmul_c", "mul_f", "rmul_f", "shift", "stretch",
    "select", "transform",
}
KERNELS = dict(
    eq=2.5, m12=0.7, m32=0.8, m52=0.8, rq=0.7, lin=0.6, scale=1.2, stretch=1.0, sum=0.7, prod=0.5, num=0.25,
    fn=0.25, one=0.1, zero=0.1, track=0.0,
)
SCALARS = [0.5, 2.0, -1.0, -0.7, 1.3, 0.1, 3.0, 1.0]


def pick(rng, weights):
    ks = [k for k, v in weights.items() if v > 0]
    return rng.choices(ks, [weights[k] for k in ks])[0]


class Gen:
    def __init__(self, rng, profile, dim=None, track=False):
        self.rng = rng
        self.W = self.world()
        w = dict(BASE)
        w.update(profile.get("w", {}))
        # Swarm: every run has its own mix.
        for k in w:
            w[k] *= rng.choice([0.3, 0.7, 1.0, 1.0, 1.5, 2.5])
        self.w = w
        un = dict(UN)
        un.update(profile.get("un", {}))
        for k in un:
            un[k] *= rng.choice([0.0, 0.5, 1.0, 1.0, 2.0, 4.0])
        un["add_c"] = max(un["add_c"], 0.1)
        self.un = un
        self.kern = dict(KERNELS)
        self.kern.update(profile.get("kern", {}))
        if track:
            self.kern["track"] = 2.5
        self.profile = profile
        self.d = dim or (2 if rng.random() < profile.get("p2", 0.3) else 1)
        if self.d == 2:
            self.un["select"] *= 2
        self.ops = []
        self.n = 0
        self.client = 0
        self.clients = profile.get("clients") or rng.choice([1, 2, 2, 3])
        self.lost = profile.get("lost", 0.15)
        self.maxn = profile.get("maxn", 4)
        self.noise_w = profile.get("noise", dict(s=3, v=1.5, M=1, D=0.5, none=1.2))
        self.gpm = {}  # process -> "size" guard
        self.mp = profile.get("methods", dict(exact=3, vfe=1, fitc=1, dtc=1))
        self.shares = profile.get("share", 0.8)
        self.own = {}
        self.void = set()  # inputs and distributions without any points, which only serve as data

    # ---- small helpers ----

    def world(self):
        return world.World(real=False)

    def id(self, kind):
        self.n += 1
        return f"{kind}{self.n}"

    def alive(self, kind):
        return [i for i in self.W.f[kind] if (kind, i) not in self.W.dropped and i not in self.void]

    def any(self, kind, recent=0.5, pred=None):
        ids = self.alive(kind)
        if pred is not None:
            ids = [i for i in ids if pred(i)]
        if not ids:
            return None
        if len(ids) > 4 and self.rng.random() < recent:
            return self.rng.choice(ids[-4:])
        return self.rng.choice(ids)

    def num(self):
        return self.rng.choice(SCALARS)

    def fnspec(self):
        return [self.rng.randrange(len(R.FNS)), self.rng.choice([0.5, 1.0, -1.2, 0.8])]

    def tfspec(self):
        return [self.rng.randrange(len(R.TFS)), self.rng.choice([0.5, 1.0, 1.2, 0.8])]

    def emit(self, op):
        """Add an operation if the reference accepts it."""
        op["c"] = self.client
        try:
            with np.errstate(all="ignore"):
                v = self.W.ref(op)
            self.check_value(op, v)
        except R.Reject:
            self.W.undo_ref(op)
            return False
        except world.Skip:
            self.W.undo_ref(op)
            return False
        except R.Refused:
            self.W.undo_ref(op)
            if self.rng.random() < self.profile.get("refused", 0.5):
                self.ops.append(op)
                return True
            return False
        self.ops.append(op)
        return True

    def check_value(self, op, v):
        """Reject wild magnitudes."""
        if op["o"] in ("qm", "qk", "acc", "fresh", "lp", "elbo"):
            for u in world.flat(v):
                if isinstance(u, np.ndarray) and u.size and (
                    not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 1e4
                ):
                    raise R.Reject("magnitude")

    # ---- specifications ----

    def kernel(self, depth=0):
        rng = self.rng
        w = dict(self.kern)
        if depth >= 2:
            for k in ("scale", "stretch", "sum", "prod"):
                w[k] = 0
        if depth > 0:
            for k in ("num", "fn", "zero", "one"):
                w[k] = 0
        k = pick(rng, w)
        if k == "rq":
            return ["rq", rng.choice([0.5, 1.5])]
        if k == "num":
            return ["num", rng.choice([0.5, 2.0])]
        if k == "fn":
            return ["fn", self.fnspec()]
        if k == "scale":
            return ["scale", rng.choice([0.5, 2.0, 1.5]), self.kernel(depth + 1)]
        if k == "stretch":
            return ["stretch", rng.choice([0.5, 2.0, 1.5]), self.kernel(depth + 1)]
        if k in ("sum", "prod"):
            return [k, self.kernel(depth + 1), self.kernel(depth + 1)]
        if k == "track":
            return ["track", self.id("k"), self.kernel(2)]
        return [k]

    def mean(self):
        k = pick(self.rng, dict(none=3, zero=0.5, num=1, fn=1.5, sum=0.3))
        if k == "num":
            return ["num", self.num()]
        if k == "fn":
            return ["fn", self.fnspec(), self.id("mf")]
        if k == "sum":
            return ["sum", ["num", self.num()], ["fn", self.fnspec()]]
        return [k]

    # ---- inputs ----

    def points(self, n):
        """Well-separated points."""
        rng = self.rng
        grid = rng.sample(range(-6, 7), n) if n <= 13 else list(range(n))
        out = []
        for g in grid:
            row = [round(0.55 * g + rng.uniform(-0.12, 0.12), 3)]
            for _ in range(self.d - 1):
                row.append(round(rng.uniform(-1.5, 1.5), 3))
            out.append(row)
        return out

    def new_x(self, n=None):
        rng = self.rng
        if n is None:
            n = pick(rng, {1: 1.2, 2: 1.5, 3: 1.5, 4: 0.8 if self.maxn >= 4 else 0})
        pts = self.points(n)
        if n > 1 and rng.random() < 0.06:
            pts[-1] = list(pts[0])  # Duplicate input.
        if self.d == 1:
            f = pick(rng, dict(v=2, c=1, s=0.4 if n == 1 else 0))
        else:
            f = "m"
        if rng.random() < self.profile.get("ints", 0.05) and n <= 4:
            # Integer inputs.
            f = "i" + f
            pts = [[g] + [rng.randint(-2, 2) for _ in row[1:]] for g, row in zip(rng.sample(range(-3, 4), n), pts)]
        i = self.id("x")
        ok = self.emit({"o": "x", "id": i, "f": f, "v": [u for r in pts for u in r]})
        return i if ok else None

    def x(self, n=None):
        if self.rng.random() < self.shares:
            i = self.any("x", 0.6, lambda i: n is None or len(self.W.fx[i]) == n)
            if i is not None:
                return i
        return self.new_x(n)

    def y_for(self, n, lost=None):
        rng = self.rng
        lost = self.lost if lost is None else lost
        v = [round(rng.gauss(0, 1.2), 3) for _ in range(n)]
        if rng.random() < lost and n:
            if rng.random() < 0.1:
                v = [None] * n
            else:
                k = rng.randint(1, n)
                for j in rng.sample(range(n), min(k, max(1, n - 1))):
                    v[j] = None
        i = self.id("y")
        # A `Dense` may not go into `concat`: only plain arrays are used in pairs.
        f = pick(rng, dict(v=2, c=1))
        return i if self.emit({"o": "y", "id": i, "v": v, "f": f}) else None

    def noise(self, n, want=None):
        rng = self.rng
        w = dict(self.noise_w)
        if want == "diag":
            w["M"] = 0
            w["none"] = 0
        t = pick(rng, w)
        if t == "none":
            return None
        if t == "s":
            return ["s", rng.choice([0.05, 0.1, 0.5, 1.0])]
        if t in ("v", "D"):
            return [t, [rng.choice([0.05, 0.2, 0.5, 1.0, 0.8]) for _ in range(n)]]
        A = np.array([[rng.uniform(-0.5, 0.5) for _ in range(n)] for _ in range(n)])
        S = np.round(A @ A.T + 0.2 * np.eye(n), 4)
        return ["M", ((S + S.T) / 2).tolist()]

    # ---- operations ----

    def g_measure(self):
        return self.emit({"o": "measure", "id": self.id("M")})

    def g_gp(self, m=None):
        rng = self.rng
        op = {"o": "gp", "id": self.id("p"), "mean": self.mean(), "kernel": self.kernel()}
        m = m or (self.any("M", 0.3, self._prior_ok) if rng.random() < 0.85 else None)
        if m is None:
            op["nm"] = self.id("M")
        else:
            op["m"] = m
            op["how"] = rng.choice(["kw", "ctx"])
        return self.emit(op)

    def _prior_ok(self, m):
        # Extending posteriors is part of the workload, but less often.
        return self.W.fM[m].depth == 0 or self.rng.random() < 0.4

    def _via(self, op, *ps):
        if self.rng.random() < 0.15:
            try:
                ms = self.W.common(*ps)
            except R.Refused:
                return
            ms = [m for m in ms if ("M", m) not in self.W.dropped]
            if ms:
                op["via"] = self.rng.choice(ms)

    def g_un(self, p=None, k=None):
        rng = self.rng
        p = p or self.any("P", 0.6)
        if p is None:
            return self.g_gp()
        k = k or pick(rng, self.un)
        op = {"o": "un", "id": self.id("p"), "p": p, "k": k}
        if k.endswith("_c"):
            op["a"] = self.num()
        elif k.endswith("_f"):
            op["a"] = self.fnspec()
        elif k == "shift":
            op["a"] = [0.5, -0.8][: self.d] if self.d > 1 and rng.random() < 0.4 else rng.choice([0.3, -1.0, 0.7])
        elif k == "stretch":
            op["a"] = [0.5, 1.7][: self.d] if self.d > 1 and rng.random() < 0.4 else rng.choice([0.5, 2.0, 1.4])
        elif k == "select":
            if self.d == 1:
                op["a"] = [0]
            else:
                op["a"] = rng.choice([[0], [1], [1, 0], [0, 1]])
        elif k == "transform":
            op["a"] = self.tfspec()
        elif k == "diffa":
            op["a"] = rng.choice([[1, 2], [1, 3], [2, 4]])
        if k in VIA:
            self._via(op, p)
        if op.get("via") and k in ("mul_c", "shift") and rng.random() < 0.5:
            op["add"] = rng.choice([1, 2])
        return self.emit(op)

    def g_bin(self):
        rng = self.rng
        p = self.any("P", 0.5)
        if p is None:
            return self.g_gp()
        if rng.random() < 0.92:
            q = self.any("P", 0.5, lambda q: self.W.primary(q) == self.W.primary(p))
        else:
            q = self.any("P")
        k = pick(rng, dict(add=3, sub=1.5, mul=self.profile.get("mul", 0.8)))
        op = {"o": "bin", "id": self.id("p"), "p": p, "q": q, "k": k}
        if k != "sub":
            self._via(op, p, q)
        return self.emit(op)

    def g_apply(self):
        p = self.any("P")
        if p is None:
            return self.g_gp()
        ms = [m for m in self.W.fP[p] if ("M", m) not in self.W.dropped]
        if not ms:
            return False
        return self.emit({"o": "apply", "id": self.id("p"), "m": self.rng.choice(ms), "p": p})

    def g_cross(self):
        rng = self.rng
        p = self.any("P")
        if p is None:
            return self.g_gp()
        if rng.random() < self.profile.get("nest", 0.1):
            p = self.any("P", 0.5, lambda q: q in self.W.partsof) or p
        m = self.W.primary(p)
        ps = [p]
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            ps.append(self.any("P", 0.4, lambda q: self.W.primary(q) == m) or p)
        rng.shuffle(ps)
        if rng.random() < 0.05:
            ps.append(self.any("P"))
        op = {"o": "cross", "id": self.id("p"), "ps": ps}
        self._via(op, *ps)
        return self.emit(op)

    def g_fdd(self, p=None, want=None, n=None):
        rng = self.rng
        p = p or self.any("P", 0.5)
        if p is None:
            return self.g_gp()
        dims = self.W.fM[self.W.primary(p)].dims(p)
        op = {"o": "fdd", "id": self.id("d"), "p": p}
        if dims > 1 and rng.random() < 0.5 or rng.random() < self.profile.get("parts1", 0.03):
            parts = self._parts(p)
            if parts:
                op["parts"] = parts
        if "parts" not in op:
            if n is None and dims > 2:
                n = rng.randint(1, 9 // dims)
            op["x"] = self.x(n)
            if op["x"] is None:
                return False
            size = dims * len(self.W.fx[op["x"]])
        else:
            size = sum(len(self.W.fD[d].noise) for d in op["parts"])
        if size > 9:
            return False
        noise = self.noise(size, want)
        if noise is not None:
            op["noise"] = noise
        return self.emit(op)

    def _parts(self, p):
        """Distributions that serve as the inputs for the outputs of a product."""
        comps = self.W.partsof.get(p)
        if comps is None or any(q not in self.W.fP for q in comps):
            return None
        out = []
        for q in comps:
            d = self.any("D", 0.3, lambda d: self.W.fD[d].p == q and not isinstance(self.W.fD[d].X, list))
            if d is None or self.rng.random() < 0.3:
                x = self.x()
                if x is None:
                    return None
                op = {"o": "fdd", "id": self.id("d"), "p": q, "x": x}
                if not self.emit(op):
                    return None
                d = op["id"]
            out.append(d)
        return out

    def g_mfdd(self):
        d = self.any("D")
        if d is None:
            return self.g_fdd()
        p = self.W.fD[d].p
        ms = [m for m in self.W.fP[p] if ("M", m) not in self.W.dropped]
        if not ms:
            return False
        op = {"o": "mfdd", "id": self.id("d"), "np": self.id("p"), "m": self.rng.choice(ms), "d": d}
        return self.emit(op)

    def _dset(self, k, pred=None):
        d = self.any("D", 0.5, pred)
        if d is None:
            return None
        m = self.W.primary(self.W.fD[d].p)
        ds = [d]
        for _ in range(k - 1):
            ds.append(
                self.any(
                    "D", 0.4,
                    lambda e: self.W.primary(self.W.fD[e].p) == m
                    and not isinstance(self.W.fD[e].X, list)
                    and (pred is None or pred(e)),
                )
                or d
            )
        if k > 1 and self.rng.random() < 0.04:
            ds.append(self.any("D"))
        return ds

    def _small(self, ds, lim=12):
        return sum(len(self.W.fD[d].noise) for d in ds) <= lim

    def g_comb(self):
        ds = self._dset(self.rng.choice([1, 2, 2, 3]))
        if ds is None:
            return self.g_fdd()
        if not self._small(ds):
            return False
        return self.emit({"o": "comb", "id": self.id("d"), "np": self.id("p"), "ds": ds})

    def _void(self, p):
        x, d = self.id("x"), self.id("d")
        self.void |= {x, d}
        if not self.emit({"o": "x", "id": x, "f": self.rng.choice("vc") if self.d == 1 else "m", "v": []}):
            return None
        op = {"o": "fdd", "id": d, "p": p, "x": x}
        if self.rng.random() < 0.7:
            op["noise"] = ["s", 0.3]
        return d if self.emit(op) else None

    def items(self, want=None, k=None):
        rng = self.rng
        k = k or rng.choice([1, 1, 1, 2, 2, 3])
        pred = None
        if want == "diag":
            pred = lambda d: self.W.fD[d].nk in ("s", "v", "D")  # noqa: E731
        ds = self._dset(k, pred)
        if ds is None or rng.random() < 0.3:
            if not self.g_fdd(want=want) or self.ops[-1]["o"] != "fdd":
                return None
            ds = [self.ops[-1]["id"]] + (ds or [])[1:]
            ms = {self.W.primary(self.W.fD[d].p) for d in ds}
            if len(ms) > 1 and rng.random() < 0.9:
                ds = ds[:1]
        if not self._small(ds, 10):
            return None
        if rng.random() < self.profile.get("void", 0.01):
            d = self._void(self.W.fD[ds[0]].p)
            if d is not None:
                ds = rng.choice([[d], [d], ds[:1] + [d], [d] + ds[:1]])
        out = []
        for d in ds:
            n = len(self.W.fD[d].noise)
            y = None
            if rng.random() < 0.25:
                y = self.any("y", 0.5, lambda i: len(self.W.fy[i]) == n)
            y = y or self.y_for(n)
            if y is None:
                return None
            out.append([d, y])
        return out

    def g_obs(self, method=None):
        rng = self.rng
        method = method or pick(rng, self.mp)
        op = {"o": "obs", "id": self.id("o"), "method": method}
        want = "diag" if method != "exact" and rng.random() < 0.93 else None
        items = self.items(want)
        if items is None:
            return False
        op["items"] = items
        if rng.random() < 0.3:
            op["t"] = 1
        if method != "exact":
            m = self.W.primary(self.W.fD[items[0][0]].p)
            us = []
            for _ in range(rng.choice([1, 1, 2])):
                d = self.any("D", 0.4, lambda e: self.W.primary(self.W.fD[e].p) == m
                             and not isinstance(self.W.fD[e].X, list))
                if d is None or rng.random() < 0.4:
                    p = self.any("P", 0.4, lambda q: self.W.primary(q) == m)
                    x = self.x()
                    if x is None or p is None:
                        return False
                    o2 = {"o": "fdd", "id": self.id("d"), "p": p, "x": x}
                    if rng.random() < 0.3:
                        o2["noise"] = ["s", 0.1]
                    if not self.emit(o2):
                        return False
                    d = o2["id"]
                us.append(d)
            if not self._small(us, 8):
                return False
            op["us"] = us
            if rng.random() < 0.3:
                op["ut"] = 1
        return self.emit(op)

    def g_moobs(self):
        """Observe a Cartesian product, mostly a nested one."""
        rng = self.rng
        p = self.any("P", 0.5, lambda q: q in self.W.partsof)
        if p is None or rng.random() < 0.5:
            n = len(self.ops)
            if p is None and not self.g_cross() or not self.g_cross():
                return False
            made = [op["id"] for op in self.ops[n:] if op["o"] == "cross" and op["id"] in self.W.fP]
            p = made[-1] if made else p
        if p is None:
            return False
        n = len(self.ops)
        if not self.g_fdd(p) or self.ops[-1]["o"] != "fdd":
            return False
        d = self.ops[-1]["id"]
        items = [[d, self.y_for(len(self.W.fD[d].noise), lost=min(1, 1.3 * self.lost))]]
        if items[0][1] is None:
            return False
        m = self.W.primary(p)
        if rng.random() < 0.3 and not isinstance(self.W.fD[d].X, list):
            e = self.any("D", 0.4, lambda e: self.W.primary(self.W.fD[e].p) == m and not isinstance(self.W.fD[e].X, list))
            if e and self._small([d, e], 10):
                y = self.y_for(len(self.W.fD[e].noise))
                items.insert(rng.randrange(2), [e, y])
        ms = [mm for mm in self.W.common(*[self.W.fD[d].p for d, _ in items]) if ("M", mm) not in self.W.dropped]
        if not ms:
            return False
        k = pick(rng, dict(cond=3, obs=1, lp=1.5))
        if k == "obs":
            return self.emit({"o": "obs", "id": self.id("o"), "method": "exact", "items": items})
        if k == "lp":
            return self.emit({"o": "lp", "form": "m", "items": items, "m": rng.choice(ms)})
        return self.emit({"o": "cond", "id": self.id("M"), "items": items, "m": rng.choice(ms),
                          "form": rng.choice(["or", "pairs", "fdd"])})

    def g_joint(self):
        """Several processes together under a posterior; mostly processes that are independent a priori."""
        rng = self.rng
        m = self.any("M", 0.6, lambda m: self.W.fM[m].depth > 0)
        if m is None:
            return self.g_cond()
        roots = {op["id"] for op in self.ops if op["o"] == "gp"}
        ds, seen = [], set()
        for _ in range(rng.choice([2, 2, 2, 3])):

            def fits(p):
                return m in self.W.fP[p] and p not in seen and self.W.fM[m].dims(p) == 1

            p = self.any("P", 0.3, lambda p: p in roots and fits(p)) if rng.random() < 0.7 else None
            p = p or self.any("P", 0.3, fits)
            if p is None:
                break
            seen.add(p)
            d = self.any("D", 0.4, lambda d: self.W.fD[d].p == p) if rng.random() < 0.3 else None
            if d is None:
                if not self.g_fdd(p, n=rng.choice([1, 2, 2, 3])) or self.ops[-1]["o"] != "fdd":
                    return False
                d = self.ops[-1]["id"]
            ds.append(d)
        if len(ds) < 2 or not self._small(ds, 9):
            return False
        k = pick(rng, dict(lp=3, cond=1, samp=1))
        if k == "samp" and self.w.get("samp"):
            return self.emit({"o": "samp", "ds": ds, "seed": rng.randrange(10**6), "m": m, "how": "state"})
        items = [[d, self.y_for(len(self.W.fD[d].noise))] for d in ds]
        if any(y is None for _, y in items):
            return False
        if k == "lp":
            return self.emit({"o": "lp", "form": "m", "items": items, "m": m})
        return self.emit({"o": "cond", "id": self.id("M"), "items": items, "m": m, "form": "or"})

    def _obs_measures(self, o):
        if o not in self.W.fO:
            return []
        ps = [i[0] for i in self.W.fO[o].items] + [u[0] for u in self.W.fO[o].us or []]
        ms = [m for m in self.W.fP[ps[0]] if all(m in self.W.fP[p] for p in ps)]
        return [m for m in ms if ("M", m) not in self.W.dropped]

    def g_cond(self, m=None):
        rng = self.rng
        op = {"o": "cond", "id": self.id("M")}
        if rng.random() < self.profile.get("condobs", 0.5):
            o = self.any("O", 0.6)
            if o is None:
                if not self.g_obs():
                    return False
                o = self.ops[-1]["id"]
                if self.ops[-1]["o"] != "obs":
                    return False
            ms = self._obs_measures(o)
            if not ms:
                return False
            op["obs"] = o
            op["m"] = m if m in ms else rng.choice(ms)
        else:
            items = self.items()
            if items is None:
                return False
            op["items"] = items
            try:
                ms = [mm for mm in self.W.common(*[self.W.fD[d].p for d, _ in items])
                      if ("M", mm) not in self.W.dropped]
            except R.Refused:
                ms = [self.W.primary(self.W.fD[items[0][0]].p)]
            ms = [mm for mm in ms if ("M", mm) not in self.W.dropped]
            if not ms:
                return False
            op["m"] = m if m in ms else rng.choice(ms)
        op["form"] = rng.choice(["or", "pairs", "fdd"])
        return self.emit(op)

    def g_pcond(self):
        rng = self.rng
        op = {"o": "pcond", "id": self.id("p"), "nm": self.id("M")}
        p = self.any("P", 0.5)
        if p is None:
            return self.g_gp()
        m = self.W.primary(p)
        if rng.random() < self.profile.get("condobs", 0.5):
            o = self.any("O", 0.6, lambda o: m in self._obs_measures(o))
            if o is None:
                return False
            op["obs"] = o
        else:
            items = self.items()
            if items is None:
                return False
            op["items"] = items
            p = self.any("P", 0.5, lambda q: self.W.primary(q) == self.W.primary(self.W.fD[items[0][0]].p))
        op["p"] = p
        op["form"] = rng.choice(["or", "pairs", "fdd"])
        return self.emit(op)

    # Queries.

    def pm(self, recent=0.6):
        """A process and a measure that it is in."""
        if self.rng.random() < self.profile.get("deep", 0.3):
            m = self.any("M", 0.5, lambda m: self.W.fM[m].depth > 0)
            p = m and self.any("P", recent, lambda p: m in self.W.fP[p])
            if p:
                return p, m
        p = self.any("P", recent)
        if p is None:
            return None, None
        ms = [m for m in self.W.fP[p] if ("M", m) not in self.W.dropped]
        if not ms:
            return None, None
        return p, (self.rng.choice(ms[-3:]) if self.rng.random() < 0.7 else self.rng.choice(ms))

    def g_qm(self):
        p, m = self.pm()
        x = self.x()
        if p is None or x is None:
            return False
        op = {"o": "qm", "m": m, "p": p, "x": x}
        if self.rng.random() < 0.3:
            op["pm"] = 1
        return self.emit(op)

    def g_qk(self):
        rng = self.rng
        p, m = self.pm()
        x = self.x()
        if p is None or x is None:
            return False
        if rng.random() < 0.3:
            q = p
        else:
            q = self.any("P", 0.6, lambda q: m in self.W.fP[q])
        op = {"o": "qk", "m": m, "p": p, "q": q, "x": x, "ew": rng.random() < 0.3}
        if rng.random() < 0.5:
            y = self.x(len(self.W.fx[x])) if op["ew"] else self.x()
            if y:
                op["y2"] = y
        if rng.random() < 0.3:
            op["pm"] = 1
        return self.emit(op)

    def accs(self, has_y):
        rng = self.rng
        ks = [k for k in self.profile.get("accs", world.ACC) if k not in self.profile.get("noaccs", ())]
        n = rng.choice([1, 1, 2, 3, 5])
        out = [rng.choice(ks) for _ in range(n)]
        if rng.random() < 0.5:
            out = [k for k in out if k not in ("entropy", "self_kl", "std_kl", "std_w2")] or ["mean"]
        return [k for k in out if has_y or k != "logpdf"] or ["var_diag"]

    def g_acc(self):
        rng = self.rng
        d = self.any("D", 0.5)
        if d is None:
            return self.g_fdd()
        op = {"o": "acc", "d": d}
        if rng.random() < 0.3:
            n = len(self.W.fD[d].noise)
            op["y"] = self.any("y", 0.5, lambda i: len(self.W.fy[i]) == n) or self.y_for(n)
        op["ks"] = self.accs(bool(op.get("y")))
        return self.emit(op)

    def g_fresh(self):
        rng = self.rng
        p, m = self.pm()
        x = self.x()
        if p is None or x is None:
            return False
        op = {"o": "fresh", "m": m, "p": p, "x": x}
        size = self.W.fM[m].dims(p) * len(self.W.fx[x])
        if size > 9:
            return False
        if rng.random() < 0.5:
            noise = self.noise(size)
            if noise is not None:
                op["noise"] = noise
        if rng.random() < 0.3:
            op["y"] = self.any("y", 0.5, lambda i: len(self.W.fy[i]) == size) or self.y_for(size)
        op["ks"] = self.accs(bool(op.get("y")))
        return self.emit(op)

    def g_lp(self):
        rng = self.rng
        form = rng.choice(["obs", "d", "m", "m1"])
        op = {"o": "lp", "form": form}
        if form == "obs":
            o = self.any("O", 0.5, lambda o: self.W.fO[o].method == "exact")
            if o is None:
                return self.g_obs("exact")
            ms = self._obs_measures(o)
            if not ms:
                return False
            op["obs"], op["m"] = o, rng.choice(ms)
            return self.emit(op)
        items = self.items(k=1 if form in ("d", "m1") else None)
        if items is None:
            return False
        if form in ("d", "m1"):
            items = items[:1]
        op["items"] = items
        if form != "d":
            try:
                ms = self.W.common(*[self.W.fD[d].p for d, _ in items])
            except R.Refused:
                return False
            ms = [m for m in ms if ("M", m) not in self.W.dropped]
            if not ms:
                return False
            op["m"] = rng.choice(ms)
        return self.emit(op)

    def g_elbo(self):
        rng = self.rng
        o = self.any("O", 0.6, lambda o: self.W.fO[o].method != "exact")
        if o is None:
            return self.g_obs(pick(rng, {k: v for k, v in self.mp.items() if k != "exact"} or {"vfe": 1}))
        ms = self._obs_measures(o)
        if not ms:
            return False
        op = {"o": "elbo", "obs": o, "m": rng.choice(ms)}
        if rng.random() < 0.3:
            op["lp"] = 1
        return self.emit(op)

    def g_samp(self):
        rng = self.rng
        ds = self._dset(rng.choice([1, 1, 2, 3]))
        if ds is None:
            return self.g_fdd()
        if not self._small(ds, 8):
            return False
        op = {"o": "samp", "ds": ds, "seed": rng.randrange(10**6)}
        if rng.random() < 0.5:
            op["n"] = rng.choice([1, 2, 3])
        if len(ds) > 1 or rng.random() < 0.4:
            try:
                ms = self.W.common(*[self.W.fD[d].p for d in ds])
            except R.Refused:
                ms = [self.W.primary(self.W.fD[ds[0]].p)]
            ms = [m for m in ms if ("M", m) not in self.W.dropped]
            if not ms:
                return False
            op["m"] = rng.choice(ms)
        elif rng.random() < 0.4:
            op["noise"] = rng.choice([0.1, 0.5])
        op["how"] = "global" if rng.random() < 0.25 else "state"
        return self.emit(op)

    def g_ms(self):
        p = self.any("P", 0.6)
        return p is not None and self.emit({"o": "ms", "p": p})

    def g_show(self):
        kind = self.rng.choice(["P", "D", "D", "M"])
        i = self.any(kind)
        return i is not None and self.emit({"o": "show", "kind": kind, "i": i})

    def g_drop(self):
        kind = self.rng.choice(["P", "D", "M", "O", "x"])
        ids = self.alive(kind)
        if len(ids) < 4:
            return False
        return self.emit({"o": "drop", "kind": kind, "i": self.rng.choice(ids)})

    def g_gc(self):
        return self.emit({"o": "gc"})

    # ---- driver ----

    def repeat(self):
        """Ask an earlier question again."""
        qs = [o for o in self.ops if o["o"] in ("qm", "qk", "acc", "fresh", "lp", "elbo", "ms", "samp")]
        if not qs:
            return False
        op = dict(self.rng.choice(qs))
        return self.emit(op)

    def run(self, length):
        rng = self.rng
        # A first process, so that there is something to work with.
        self.g_gp()
        if rng.random() < 0.8 and "M" in self.ops[-1].get("nm", "M"):
            self.g_gp(self.any("M"))
        tries = 0
        while len(self.ops) < length and tries < 12 * length:
            tries += 1
            if tries % 3 == 0:
                self.client = rng.randrange(self.clients)
            if rng.random() < self.profile.get("repeat", 0.08):
                self.repeat()
                continue
            k = pick(rng, self.w)
            getattr(self, "g_" + k)()
        fin = self.profile.get("finish")
        if fin:
            # Make sure that there is something to ask about, and ask.
            for _ in range(6):
                if any(self.W.fM[m].depth > 0 for m in self.alive("M")):
                    break
                self.g_cond()
            n = len(self.ops)
            for _ in range(20):
                if len(self.ops) >= n + 2 * fin["n"]:
                    break
                self.client = rng.randrange(self.clients)
                getattr(self, "g_" + pick(rng, fin["w"]))()
        return self.ops


def env(rng, ids=None):
    """Environment of a run: where objects live."""
    return {
        "ids": ids or rng.choice(["mono", "desc", "lifo", "rand", "randreuse"]),
        "idseed": rng.randrange(1 << 16),
    }


def seeded(*parts):
    return random.Random("/".join(str(p) for p in parts))
