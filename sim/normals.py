"""C10: normal distributions, whatever was asked of them before."""
import numpy as np

from . import gen, seams, world
from . import ref as R
from .execute import tb_clear
from .small import Base
from .world import Violation, dense, differs, short

SINGLE = [
    "mean", "var", "var_diag", "mean_var", "marginals", "bounds", "m2", "dim", "dtype", "zero", "entropy", "diag",
    "logpdf", "logpdfs", "logpdf_nan", "str", "add", "sub", "mul", "neg", "lmat", "rmat", "self_kl", "std_kl", "std_w2",
    "nadd", "rsub", "div", "addv", "mulv",
]
MEANS = ["dense", "dense", "zeros", "int0", "none", "Zero", "Dense", "Constant", "float0"]
VARS = ["dense", "dense", "diag", "Diagonal", "eye", "woodbury", "constant", "Dense"]


def arrays(spec):
    """Dense mean and variance of a specification."""
    n = spec["n"]
    rng = np.random.RandomState(spec["seed"])
    mu = np.round(rng.randn(n, 1), 3)
    L = np.round(rng.randn(n, n), 3)
    d = np.round(rng.uniform(0.5, 2, n), 3)
    u = np.round(rng.randn(n, 1), 3)
    v = spec["var"]
    if v in ("dense", "Dense"):
        S = L @ L.T / n + np.diag(d)
    elif v in ("diag", "Diagonal"):
        S = np.diag(d)
    elif v == "eye":
        S = d[0] * np.eye(n)
    elif v == "woodbury":
        S = np.diag(d) + u @ u.T
    else:
        S = np.diag(d) + 0.7
    m = spec["mean"]
    if m in ("zeros", "int0", "none", "Zero", "float0"):
        mu = np.zeros((n, 1))
    elif m == "Constant":
        mu = np.full((n, 1), 1.7)
    return mu, S, d, u


class C10(Base):
    id = "C10"
    runs = {"quick": 2000, "thorough": 40000}
    cap = {"quick": 45, "thorough": 900}
    rule = (
        "seeded histories of accesses by interleaved clients to distributions specified eagerly, lazily (with any subset "
        "of the optional constructors), by structured matrices, and by processes at inputs, with constructors, "
        "factorisations and random sources failing and interrupts at seeded lines; every result is compared to "
        "what follows from the dense mean and variance; non-trivial: at least one distribution was asked twice"
    )
    stub = [
        "random states handed to the library: seeded generators that script or fail draws",
        "the constructors of lazily specified distributions: generated, failing on schedule",
        "np.linalg.cholesky and scipy.linalg.solve_triangular: real, with seeded failures",
        "interrupts and allocation failures are injected by a trace hook at seeded lines of the library",
    ]

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        ops = []
        dists = {}
        n = rng.choice([10, 20, 35] + ([70] if tier == "thorough" else []))
        w = dict(dist=1.2, acc=8, derive=0.6, two=0.8, samp=1, fdd=0.6)
        for k in w:
            w[k] *= rng.choice([0.4, 1, 1, 2])
        pf = rng.choice([0, 0.1, 0.3])
        keys = rng.sample(SINGLE, rng.choice([3, 6, len(SINGLE)])) if rng.random() < 0.6 else SINGLE
        count = [0]

        def fault():
            if rng.random() > pf:
                return {}
            k = rng.choice(["interrupt", "memory", "chol", "solve", "ctor", "ctor", "ctor"])
            return {"fault": {"kind": k, "n": rng.randrange(1, 40) if k in ("interrupt", "memory") else rng.choice([1, 1, 2])}}

        def dist():
            count[0] += 1
            j = f"d{count[0]}"
            op = {"o": "dist", "id": j, "n": rng.choice([1, 2, 3, 4]), "mean": rng.choice(MEANS), "var": rng.choice(VARS),
                  "seed": rng.randrange(1000), "style": rng.choice(["eager", "lazy", "lazy", "lazy"]),
                  "opt": [k for k in ("var_diag", "mean_var", "mean_var_diag") if rng.random() < 0.55]}
            ops.append(op)
            dists[j] = op["n"]

        def fdd():
            count[0] += 1
            j = f"d{count[0]}"
            nn = rng.choice([1, 2, 3])
            ops.append({"o": "fdd", "id": j, "n": nn, "mean": rng.choice(["zero", "one", "fn", "num"]),
                        "kernel": rng.choice(["eq", "m12", "sum", "delta"]),
                        "noise": rng.choice([None, "s", "v", "m", "M"]), "x": rng.choice(["v", "c", "scalar"]),
                        "seed": rng.randrange(1000), "post": rng.random() < 0.3})
            dists[j] = 1 if ops[-1]["x"] == "scalar" else nn

        rng.choice([dist, dist, fdd])()
        while len(ops) < n:
            k = gen.pick(rng, w)
            if k == "dist":
                if len(dists) < 6:
                    dist()
            elif k == "fdd":
                if len(dists) < 6:
                    fdd()
            else:
                d = rng.choice(sorted(dists))
                if k == "acc":
                    ops.append(dict({"o": "acc", "d": d, "k": rng.choice(keys), "seed": rng.randrange(100)}, **fault()))
                elif k == "derive":
                    if len(dists) >= 6:
                        continue
                    count[0] += 1
                    j = f"d{count[0]}"
                    same = [e for e in sorted(dists) if dists[e] == dists[d]]
                    ops.append(dict({"o": "derive", "id": j, "a": d, "b": rng.choice(same), "seed": rng.randrange(100),
                                     "k": rng.choice(["sum", "mul", "add", "diag", "lmat", "neg", "sub"])}, **fault()))
                    dists[j] = 2 if ops[-1]["k"] == "lmat" else dists[d]
                elif k == "two":
                    same = [e for e in sorted(dists) if dists[e] == dists[d]]
                    ops.append(dict({"o": "two", "a": d, "b": rng.choice(same), "k": rng.choice(["kl", "w2", "nsum", "nsub"])},
                                    **fault()))
                else:
                    f = fault()
                    if f and rng.random() < 0.5:
                        f = {"fault": {"kind": "rng", "n": rng.choice([1, 1, 2])}}
                    ops.append(dict({"o": "samp", "d": d, "num": rng.choice([1, 1, 2, 3]),
                                     "noise": rng.choice([None, None, 0.3]), "how": rng.choice(["state", "state", "global"]),
                                     "seed": rng.randrange(1000)}, **f))
            if ops:
                ops[-1].setdefault("c", rng.randrange(3))
        return {"seed": rng.randrange(1 << 30), "env": gen.env(rng), "ops": ops}

    def signature(self, case, out):
        return [[op["o"], op.get("k"), op.get("mean"), op.get("var"), op.get("style"), op.get("opt"), op.get("d"), op.get("noise")]
                for op in case["ops"]]

    def schedule(self, case):
        return [[op.get("c"), op["o"], op.get("k"), op.get("d")] for op in case["ops"]]

    def nontrivial(self, case, out):
        return bool(out["stats"].get("check:asked again"))

    def simpler(self, case):
        yield from super().simpler(case)
        for i, op in enumerate(case["ops"]):
            for k, v in (("fault", None), ("n", 1), ("mean", "dense"), ("var", "dense"), ("style", "eager"), ("opt", [])):
                if op["o"] in ("dist", "acc", "samp", "two", "derive") and op.get(k) not in (None, v) and (
                    k == "fault" or op["o"] == "dist"
                ):
                    ops = list(case["ops"])
                    ops[i] = dict(op)
                    if v is None:
                        del ops[i][k]
                    else:
                        ops[i][k] = v
                    yield dict(case, ops=ops)

    # Execution.

    def go(self, case):
        self.s = world.stheno
        world.Tol.worst = 0.0
        self.D, self.E, self.asked, self.zero, self.made = {}, {}, {}, {}, {}
        self.fail_ctor = 0
        for i, op in enumerate(case["ops"]):
            if not all(op[k] in self.D for k in ("d", "a", "b") if k in op) or op.get("id") in self.D:
                continue
            self.inc("op:" + op["o"] + (":" + op["k"] if "k" in op else ""))
            self.inc("steps")
            with np.errstate(all="ignore"):
                self.do(i, op)
        self.stats["max:error relative to tolerance"] = round(world.Tol.worst, 4)

    def ctor(self, f):
        def construct():
            self.inc("probe:constructors called")
            if self.fail_ctor:
                self.fail_ctor -= 1
                if self.fail_ctor == 0:
                    seams.FAULTS.fired = "ctor"
                    raise seams.SimFault("injected: constructor")
            return f()

        return construct

    def parts(self, op):
        """Mean and variance as the user gives them."""
        M = world.matrix
        mu, S, d, u = arrays(op)
        n = op["n"]
        mean = {
            "dense": lambda: mu.copy(), "zeros": lambda: mu.copy(), "int0": lambda: 0, "none": lambda: 0,
            "float0": lambda: 0.0, "Zero": lambda: M.Zero(np.float64, n, 1), "Dense": lambda: M.Dense(mu.copy()),
            "Constant": lambda: M.Constant(np.float64(1.7), n, 1),
        }[op["mean"]]
        var = {
            "dense": lambda: S.copy(), "diag": lambda: S.copy(), "Dense": lambda: M.Dense(S.copy()),
            "Diagonal": lambda: M.Diagonal(d.copy()), "eye": lambda: M.Diagonal(d[0] * np.ones(n)),
            "woodbury": lambda: M.Woodbury(M.Diagonal(d.copy()), M.LowRank(u.copy())),
            "constant": lambda: world.B.add(M.Constant(np.float64(0.7), n, n), M.Diagonal(d.copy())),
        }[op["var"]]
        return mean, var, mu, S

    def make(self, op):
        s = self.s
        if op["o"] == "fdd":
            return self.make_fdd(op)
        mean, var, mu, S = self.parts(op)
        E = (mu[:, 0].copy(), S)
        if op["style"] == "eager":
            if op["mean"] == "none":
                return s.Normal(var()), E
            return s.Normal(mean(), var()), E
        opt = {
            "var_diag": self.ctor(lambda: np.diag(S).copy()),
            "mean_var": self.ctor(lambda: (mean(), var())),
            "mean_var_diag": self.ctor(lambda: (mean(), np.diag(S).copy())),
        }
        kw = {k: opt[k] for k in op["opt"]}
        if op["mean"] == "none":
            kw.pop("mean_var", None)
            kw.pop("mean_var_diag", None)
            return s.Normal(self.ctor(var), **kw), E
        return s.Normal(self.ctor(mean), self.ctor(var), **kw), E

    def make_fdd(self, op):
        s = self.s
        n = op["n"]
        rng = np.random.RandomState(op["seed"])
        m = s.Measure()
        kernel = {"eq": lambda: s.EQ(), "m12": lambda: 2 * s.Matern12(), "sum": lambda: s.EQ() + 0.5 * s.Matern32(),
                  "delta": lambda: s.EQ() + 0.3 * s.Delta()}[op["kernel"]]()
        mean = {"zero": lambda: s.ZeroMean(), "one": lambda: 1.5 * s.OneMean(), "num": lambda: 2,
                "fn": lambda: (lambda x: 0.5 * x)}[op["mean"]]()
        p = s.GP(kernel, measure=m) if op["mean"] == "zero" else s.GP(mean, kernel, measure=m)
        x = np.linspace(0.0, 1.3 * (n - 1), n)
        if op["x"] == "scalar":
            n, x = 1, np.float64(0.4)
        xs = np.atleast_1d(x)
        r = np.abs(xs[:, None] - xs[None, :])
        eq = np.exp(-0.5 * r**2)
        K = {"eq": lambda: eq, "m12": lambda: 2 * np.exp(-r),
             "sum": lambda: eq + 0.5 * (1 + np.sqrt(3) * r) * np.exp(-np.sqrt(3) * r),
             "delta": lambda: eq + 0.3 * (r < 1e-6)}[op["kernel"]]()
        mu = {"zero": 0 * xs, "one": 0 * xs + 1.5, "num": 0 * xs + 2, "fn": 0.5 * xs}[op["mean"]]
        if op["x"] == "c":
            x = x[:, None]
        d = np.round(rng.uniform(0.2, 1, n), 3)
        L = np.round(rng.randn(n, n), 3)
        noise = {None: None, "s": float(d[0]), "v": d.copy(), "m": np.diag(d) + L @ L.T / n,
                 "M": world.matrix.Diagonal(d.copy())}[op["noise"]]
        N = {None: np.zeros((n, n)), "s": d[0] * np.eye(n), "v": np.diag(d), "m": np.diag(d) + L @ L.T / n,
             "M": np.diag(d)}[op["noise"]]
        if op["post"]:
            # The posterior given one point.
            t, yt = np.array([0.2]), 0.9
            rt = np.abs(xs - 0.2)
            eqt = np.exp(-0.5 * rt**2)
            kt, ktt = {"eq": lambda: (eqt, 1.0), "m12": lambda: (2 * np.exp(-rt), 2.0),
                       "sum": lambda: (eqt + 0.5 * (1 + np.sqrt(3) * rt) * np.exp(-np.sqrt(3) * rt), 1.5),
                       "delta": lambda: (eqt + 0.3 * (rt < 1e-6), 1.3)}[op["kernel"]]()
            mt = {"zero": 0.0, "one": 1.5, "num": 2.0, "fn": 0.1}[op["mean"]]
            mu = mu + kt / (ktt + 0.1) * (yt - mt)
            K = K - np.outer(kt, kt) / (ktt + 0.1)
            post = m | (p(t, 0.1), np.array([yt]))
            p = post(p)
        fdd = p(x, noise) if op["noise"] else p(x)
        return fdd, (mu, K + N)

    def do(self, i, op):
        o = op["o"]
        if o in ("dist", "fdd"):
            try:
                d, E = self.make(op)
            except Exception as e:
                tb_clear(e)
                raise Violation("exc:" + o, short(e), i)
            self.D[op["id"]], self.E[op["id"]] = d, E
            self.made[op["id"]] = op
            self.log.append([i, o])
            return
        fault = op.get("fault")
        try:
            want = self.want(op)
        except R.Reject:
            return
        seams.FAULTS.reset()
        err = res = None
        try:
            res = self.with_fault(fault, lambda: self.real(op))
        except Violation:
            raise
        except BaseException as e:
            tb_clear(e)
            err = e
        finally:
            seams.FAULTS.armed = None
            self.fail_ctor = 0
        fired = seams.FAULTS.fired if fault else None
        if fault:
            self.inc("fault-fired:" + fired if fired else "fault-idle:" + fault["kind"])
        if fired:
            if err is None and fired in ("interrupt", "ctor", "rng"):
                raise Violation("swallowed:" + fired, f"{op.get('k', o)} hides a failure", i)
            if err is not None:
                if not isinstance(err, seams.INJECTED):
                    raise Violation(f"masked:{fired}", short(err), i)
                self.log.append([i, "fault " + fired])
                for d in ("d", "a", "b"):
                    if d in op:
                        self.asked[op[d]] = self.asked.get(op[d], 0) + 1
                return
        if err is not None:
            raise Violation(f"exc:{op.get('k', o)}", short(err), i)
        ds = [op[d] for d in ("d", "a", "b") if d in op]
        if any(self.asked.get(d) for d in ds):
            self.inc("check:asked again")
        for d in ds:
            self.asked[d] = self.asked.get(d, 0) + 1
        self.inc("check:value")
        self.log.append([i, o, op.get("k"), world.digest(res) if o != "derive" else None])
        try:
            why = self.judge(op, res, want)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
            why = "malformed result: " + short(e)
        if why:
            raise Violation(f"value:{op.get('k', o)}", f"{op.get('k', o)}: {why}", i)

    def with_fault(self, fault, f):
        if not fault:
            return f()
        k = fault["kind"]
        if k in ("interrupt", "memory"):
            with seams.line_tracer(fault["n"], k):
                return f()
        if k == "ctor":
            self.fail_ctor = fault["n"]
            return f()
        seams.FAULTS.arm(fault)
        return f()

    def y(self, op, n):
        return np.round(np.random.RandomState(op["seed"]).randn(n, 3), 3)

    def real(self, op):
        o = op["o"]
        if o == "acc":
            d, k = self.D[op["d"]], op["k"]
            n = len(self.E[op["d"]][0])
            Y = self.y(op, n)
            if k == "logpdf":
                return dense(d.logpdf(Y[:, 0] if op["seed"] % 2 else Y[:, :1]))
            if k == "logpdfs":
                return dense(d.logpdf(Y))
            if k == "logpdf_nan":
                y = Y[:, 0].copy()
                y[op["seed"] % n] = np.nan
                return dense(d.logpdf(y))
            if k == "rsub":
                e = 1.0 - d
            elif k == "div":
                e = d / 2
            elif k == "addv":
                e = d + Y[:, :1]
            elif k == "mulv":
                e = d * np.float64(1.5)
            else:
                return world.acc_real(k, d)
            return [dense(e.mean), dense(e.var)]
        if o == "derive":
            a, b = self.D[op["a"]], self.D[op["b"]]
            k = op["k"]
            n = len(self.E[op["a"]][0])
            return {"sum": lambda: a + b, "mul": lambda: 1.5 * a, "add": lambda: a + self.y(op, n)[:, :1],
                    "diag": lambda: a.diagonalise(), "lmat": lambda: a.lmatmul(world._mat(n)), "neg": lambda: -a,
                    "sub": lambda: a - b}[k]()
        if o == "two":
            a, b = self.D[op["a"]], self.D[op["b"]]
            if op["k"] == "kl":
                return dense(a.kl(b))
            if op["k"] == "w2":
                return dense(a.w2(b))
            e = a + b if op["k"] == "nsum" else a - b
            return [dense(e.mean), dense(e.var)]
        return self.sample(op)

    def sample(self, op):
        d = self.D[op["d"]]
        kw = {} if op["noise"] is None else {"noise": op["noise"]}
        num = op["num"]
        if num != 1:
            kw["num"] = num
        rs = seams.SimRandomState(op["seed"])
        if op["how"] == "global":
            np.random.seed(op["seed"])
            one = d.sample(**kw)
            g = np.random.get_state()[1].tolist()
            st = np.random.RandomState(op["seed"])
            _, two = d.sample(st, **kw)
            return {"one": dense(one), "two": dense(two), "moved": g == st.get_state()[1].tolist()}
        state, draw = d.sample(rs, **kw)
        count = rs.count
        out = {"shape": list(np.shape(draw)), "state": state is rs, "draw": dense(draw)}
        if count <= 24:
            # Recover the affine map from the numbers drawn to the samples.
            def play(z):
                r = seams.SimRandomState(0)
                r.script = lambda start, k: z[start : start + k]
                return dense(d.sample(r, **kw)[1])

            z = np.zeros(count)
            out["base"] = play(z)
            out["map"] = []
            for j in range(count):
                z = np.zeros(count)
                z[j] = 1
                out["map"].append(play(z) - out["base"])
        return out

    def want(self, op):
        o = op["o"]
        if o == "acc":
            mu, S = self.E[op["d"]]
            n = len(mu)
            k = op["k"]
            Y = self.y(op, n)
            if k in world.FACTOR or k in ("logpdfs", "logpdf_nan"):
                self.cond(S)
            if k == "logpdf":
                return np.asarray(R.logpdf(mu, S, Y[:, 0]))
            if k == "logpdfs":
                return np.array([R.logpdf(mu, S, Y[:, j]) for j in range(3)])
            if k == "logpdf_nan":
                keep = np.arange(n) != op["seed"] % n
                if not keep.any():
                    raise R.Reject("empty")
                return np.asarray(R.logpdf(mu[keep], S[np.ix_(keep, keep)], Y[keep, 0]))
            if k == "rsub":
                return [1 - mu[:, None], S]
            if k == "div":
                return [mu[:, None] / 2, S / 4]
            if k == "addv":
                return [mu[:, None] + Y[:, :1], S]
            if k == "mulv":
                return [mu[:, None] * 1.5, S * 2.25]
            return world.acc_ref(k, mu, S)
        if o == "derive":
            (mu, S), (nu, T) = self.E[op["a"]], self.E[op["b"]]
            n = len(mu)
            A = world._mat(n)
            return {"sum": lambda: (mu + nu, S + T), "mul": lambda: (1.5 * mu, 2.25 * S),
                    "add": lambda: (mu + self.y(op, n)[:, 0], S), "diag": lambda: (mu, np.diag(np.diag(S))),
                    "lmat": lambda: (A @ mu, A @ S @ A.T), "neg": lambda: (-mu, S), "sub": lambda: (mu - nu, S + T)}[op["k"]]()
        if o == "two":
            (mu, S), (nu, T) = self.E[op["a"]], self.E[op["b"]]
            if op["k"] == "nsum":
                return [mu[:, None] + nu[:, None], S + T]
            if op["k"] == "nsub":
                return [mu[:, None] - nu[:, None], S + T]
            self.cond(S), self.cond(T)
            r = nu - mu
            if op["k"] == "kl":
                return np.asarray(0.5 * (r @ np.linalg.solve(T, r) + np.trace(np.linalg.solve(T, S)) - len(mu)
                                         + np.linalg.slogdet(T)[1] - np.linalg.slogdet(S)[1]))
            root = world.sqrtm(S)
            v = r @ r + np.trace(S) + np.trace(T) - 2 * np.trace(world.sqrtm(root @ T @ root))
            return np.asarray(np.sqrt(max(v, 0)))
        mu, S = self.E[op["d"]]
        S = S + (op["noise"] or 0) * np.eye(len(mu))
        self.cond(S)
        return mu, S

    def cond(self, S):
        if np.linalg.cond(S) > 1e6:
            raise R.Reject("conditioning")

    def judge(self, op, res, want):
        o = op["o"]
        if o == "acc":
            k = op["k"]
            if k == "zero":
                mu = self.E[op["d"]][0]
                if not isinstance(res, bool):
                    return "not a boolean"
                if res and np.any(mu != 0):
                    return "the mean is not zero"
                if self.zero.setdefault(op["d"], res) != res:
                    return "another answer than before"
                if op["d"] in self.made and bool(self.make(self.made[op["d"]])[0].mean_is_zero) != res:
                    return "another answer than that of the same distribution that was never asked before"
                return None
            if k in ("logpdfs", "rsub", "div", "addv", "mulv", "logpdf_nan"):
                return differs(res, want)
            return world.acc_differs(k, res, want)
        if o == "derive":
            self.D[op["id"]], self.E[op["id"]] = res, want
            return None
        if o == "two":
            if op["k"] == "w2":
                return differs(res**2, want**2, scale=max(1.0, float(want) ** 2), tol=1e-4)
            return differs(res, want)
        mu, S = want
        n, num = len(mu), op["num"]
        if op["how"] == "global":
            if res["one"].shape != (n, num):
                return f"shape {res['one'].shape}"
            if not np.array_equal(res["one"], res["two"]):
                return "the global stream gives another sample than the same explicit stream"
            return None if res["moved"] else "the global stream is not advanced like the explicit stream"
        if res["shape"] != [n, num]:
            return f"shape {res['shape']} instead of {[n, num]}"
        if not res["state"]:
            return "another random state is returned"
        if "base" not in res:
            return None
        d = differs(res["base"], np.tile(mu[:, None], (1, num)))
        if d:
            return "mean of samples: " + d
        A = np.array(res["map"])
        scale = max(1.0, float(np.max(np.abs(S))))
        for a in range(num):
            for b in range(a + 1):
                d = differs(A[:, :, a].T @ A[:, :, b], S if a == b else 0 * S, scale=scale, tol=1e-6)
                if d:
                    return f"covariance of samples {a} and {b}: {d}"
        return None
