"""Array types other than NumPy's, for C17 (same results on all of them) and C19 (derivatives)."""
import numpy as np

from . import engine, gen, world
from .execute import VALUE_OPS, Runner, failed, result_differs
from .props import NOINF, REAL, Prop, WorldProp, number
from .world import Violation

NAMES = ["tensorflow", "torch", "torch-grad", "autograd"]


def fns(B):
    def ones(x):
        return 0 * x[..., :1] + 1

    return [
        lambda a: lambda x: a * x[..., :1],
        lambda a: lambda x: B.sin(a * B.sum(x, axis=-1, squeeze=False)) + 0.5,
        lambda a: lambda x: a * x[..., -1:] ** 2 + 1.0,
        lambda a: lambda x: a * B.exp(-0.5 * x[..., :1] ** 2),
        lambda a: lambda x: a * ones(x),
    ]


def tfs(B):
    def flip(x):
        return B.concat(*[x[..., i : i + 1] for i in reversed(range(x.shape[-1]))], axis=-1)

    return [
        lambda a: lambda x: a * x + 0.3,
        lambda a: lambda x: x + 0.4 * B.sin(a * x),
        lambda a: lambda x: B.tanh(a * x) * 2.0,
        lambda a: lambda x: flip(x) * a,
    ]


class Backend:
    """Args:
    name: Kind of arrays.
    numbers: Numbers that the user gives are arrays, too.
    """

    def __init__(self, name, numbers=False):
        self.name = name
        self.numbers = numbers
        self.fns = fns(world.B)
        self.tfs = tfs(world.B)

    def arr(self, a):
        """Array for the library."""
        a = np.asarray(a)
        if self.name == "tensorflow":
            import tensorflow as tf

            return tf.constant(a)
        if self.name.startswith("torch"):
            import torch

            return torch.tensor(a, requires_grad=self.name == "torch-grad" and a.dtype == float)
        if self.name == "autograd":
            from autograd.core import VJPNode
            from autograd.tracer import new_box

            return new_box(a, 0, VJPNode.new_root())
        raise ValueError(self.name)

    def num(self, v):
        """Number for the library."""
        return self.arr(np.asarray(float(v))) if self.numbers else v

    def plain(self, a):
        """NumPy array of a result."""
        while hasattr(a, "_node") and hasattr(a, "_value"):
            a = a._value
        if hasattr(a, "detach"):
            a = a.detach()
        return np.asarray(a)


def load(names):
    """Import what is needed, once, before processes are forked."""
    world.bind()
    if "tensorflow" in names:
        import tensorflow as tf

        tf.config.threading.set_intra_op_parallelism_threads(1)
        tf.config.threading.set_inter_op_parallelism_threads(1)
        import stheno.tensorflow  # noqa: F401
    if any(n.startswith("torch") for n in names):
        import torch

        torch.set_num_threads(1)
        import stheno.torch  # noqa: F401
    if "autograd" in names:
        import stheno.autograd  # noqa: F401


class using:
    """Context in which the library gets another kind of arrays."""

    def __init__(self, *args, cls=Backend, **kw):
        self.back = cls(*args, **kw)

    def __enter__(self):
        world.BACK = self.back
        return self.back

    def __exit__(self, *args):
        world.BACK = None


class NoteRunner(Runner):
    """Notes how accurate each result is."""

    def __init__(self, *args, **kw):
        Runner.__init__(self, *args, **kw)
        self.tols = {}

    def call(self, key, op, fault):
        W, o = self.W, op["o"]
        if o in ("qm", "qk", "acc", "fresh") and W.rough(op) or o in ("lp", "elbo", "acc", "fresh") and W.degenerate(op):
            self.tols[key] = 1e-3
        return Runner.call(self, key, op, fault)


FULL = dict(eq=3, m12=0.8, m32=0.8, m52=0.8, rq=0.8, scale=1.2, stretch=1, sum=0.7, prod=0.5, lin=0, num=0, fn=0, one=0, zero=0)


class BackGen(gen.Gen):
    """Keeps off what the matrix library or the array libraries cannot do on other arrays than NumPy's."""

    def emit(self, op):
        if op["o"] == "x" and self.d == 1:
            op["f"] = "c"
        return gen.Gen.emit(self, op)


class C17(Prop):
    id = "C17"
    runs = {"quick": 900, "thorough": 20000}
    cap = {"quick": 60, "thorough": 900}
    warmup = 8
    profiles = [
        dict(w=dict(samp=0, ms=0, gc=0, drop=0.1, acc=3, fresh=3, lp=1.5, elbo=1), lost=0.1, void=0, maxn=3),
        dict(w=dict(samp=0, ms=0, gc=0, drop=0.1, cond=2, obs=1.5, acc=2, fresh=3, lp=1.5, elbo=1.5, un=1, bin=1), lost=0.1,
             void=0, deep=0.6, finish=dict(n=3, w=dict(fresh=2, lp=1, qk=1)), maxn=3),
        dict(w=dict(samp=0, ms=0, gc=0, un=3.5, bin=2.5, cross=1.2, cond=0.5, obs=0.2, elbo=0, qk=4, qm=2, acc=3, fresh=2), lost=0,
             void=0, maxn=3, methods=dict(exact=1)),
    ]
    rule = (
        "seeded traces of public-API operations by up to three interleaved clients; every trace runs once on NumPy arrays "
        "and once on arrays of another kind (TensorFlow, PyTorch with and without gradients, AutoGrad inside a trace), and "
        "all results are compared; non-trivial: at least one result was compared"
    )
    assumptions = [
        "JAX is not run: it compiles in a thread pool, which a simulated process that is forked does not have",
        "samples are not compared: every backend has its own random numbers",
    ]
    real = REAL + ["TensorFlow, PyTorch and AutoGrad, as installed, on the CPU, eager, one thread"]

    def prepare(self):
        load(NAMES)

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        env = gen.env(rng)
        g = BackGen(rng, dict(rng.choice(self.profiles), kern=FULL, ints=0))
        ops = g.run(rng.choice([12, 20, 30]))
        return {"seed": rng.randrange(1 << 30), "env": env, "backend": rng.choice(NAMES), "numbers": rng.random() < 0.5, "ops": number(ops)}

    def run(self, case, stats):
        base = NoteRunner(case, {}, lenient=True)
        base.run()
        with using(case["backend"], case.get("numbers")):
            R = NoteRunner(case, stats, lenient=True)
            R.run()
        stats["probe:runs on " + case["backend"]] = 1
        for op in case["ops"]:
            k = op["key"]
            if k not in R.results or k not in base.results or op["o"] == "ms":
                continue
            a, b = R.results[k], base.results[k]
            if failed(a) != failed(b):
                raise Violation(f"backend:{op['o']}", ("fails" if failed(a) else "succeeds") + ", unlike on NumPy", k)
            if op["o"] in VALUE_OPS and not failed(a):
                stats["check:compared"] = stats.get("check:compared", 0) + 1
                d = result_differs(op, a, b, base.tols.get(k))
                if d:
                    raise Violation(f"backend:{op['o']}", d, k)
        return {"log": engine.sha([base.log, R.log])}


# Sums with constant or low-rank matrices can fail in the matrix library on TensorFlow.
SMOOTH = dict(eq=3, rq=1.2, lin=0, scale=1.2, stretch=1, sum=0.8, prod=0.6, num=0, fn=0, one=0, m12=0, m32=0, m52=0, zero=0)


class DWorld(world.World):
    rough_tol = 1e-4


class DRunner(Runner):
    def world(self):
        return DWorld()


class DGen(gen.Gen):
    def __init__(self, rng, profile):
        gen.Gen.__init__(self, rng, profile)
        self.un["diffa"] = 0
        self.un["diff"] = rng.choice([0.4, 1, 2]) * sum(self.un.values())

    def world(self):
        return DWorld(real=False)

    def emit(self, op):
        if op["o"] == "x" and op["f"] == "s":
            op["f"] = "v"  # No derivatives at Python floats.
        if op["o"] == "gp" and op["kernel"][0] in ("eq", "rq", "sum") and self.rng.random() < 0.15:
            op["kernel"] = ["prod", ["lin"], op["kernel"]]
        if op["o"] == "un" and op["k"] == "select" and op["p"] in self.W.offd and len(op["a"]) < self.d:
            op["a"] = list(reversed(range(self.d)))  # Keep what is differentiated.
        return gen.Gen.emit(self, op)

    def g_un(self, p=None, k=None):
        k = k or gen.pick(self.rng, self.un)
        if k == "diff":
            p = p or self.any("P", 0.5, lambda p: p not in self.W.offd)
            if p is None:
                return self.g_gp()
            op = {"o": "un", "id": self.id("p"), "p": p, "k": k, "a": self.rng.randrange(self.d)}
            self._via(op, p)
            return self.emit(op)
        return gen.Gen.g_un(self, p, k)

    def g_gp(self, *args, **kw):
        out = gen.Gen.g_gp(self, *args, **kw)
        if not self.W.offd and self.rng.random() < 0.5:
            self.g_un(k="diff")
        return out

    def any(self, kind, recent=0.5, pred=None):
        if kind == "P" and pred is None and self.rng.random() < 0.35:
            # Something about a derivative.
            i = gen.Gen.any(self, kind, recent, lambda i: i in self.W.offd)
            if i is not None:
                return i
        return gen.Gen.any(self, kind, recent, pred)


class C19(WorldProp):
    id = "C19"
    runs = {"quick": 1000, "thorough": 20000}
    cap = {"quick": 60, "thorough": 900}
    warmup = 4
    profiles = [
        dict(w=dict(NOINF, un=3.5, bin=2, qk=5, qm=2.5, acc=1.5, fresh=2, lp=0, samp=0, cross=0, comb=0.1, ms=0, mfdd=0.1),
             noaccs=["entropy", "logpdf", "self_kl", "std_kl", "std_w2"], kern=SMOOTH, mul=0.8, maxn=3, ints=0),
        dict(w=dict(cond=2, pcond=0.7, obs=1, elbo=0.3, un=2.5, bin=1.5, qk=4, qm=2, acc=1.5, fresh=2.5, lp=0.5, samp=0, cross=0,
                    comb=0.2, ms=0), deep=0.6, kern=SMOOTH, maxn=3, ints=0, lost=0, void=0, mul=0.4,
             methods=dict(exact=3, vfe=0.5, fitc=0.5, dtc=0.5), finish=dict(n=3, w=dict(qk=2, qm=1, fresh=2))),
    ]
    rule = (
        "seeded traces of public-API operations by up to three interleaved clients in which processes are differentiated, on "
        "TensorFlow arrays; every result about a derivative, or given data of a derivative, is compared to the reference "
        "model, which differentiates its independent processes by central differences of fourth order (step 0.01); "
        "non-trivial: at least one such result was compared"
    )
    assumptions = [
        "smooth kernels and means; derivatives are compared to 1e-4 relative to the magnitude",
        "no derivatives of derivatives, of multi-output processes, or of batches (the latter are refused by mlkernels)",
    ]
    real = REAL + ["TensorFlow, as installed, on the CPU, eager, one thread"]

    def prepare(self):
        load(["tensorflow"])

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        env = gen.env(rng)
        g = DGen(rng, rng.choice(self.profiles))
        return {"seed": rng.randrange(1 << 30), "env": env, "ops": g.run(rng.choice([12, 20, 30]))}

    def judge(self, W, op):
        ps = [op[k] for k in ("p", "q") if op.get(k)]
        ds = [op["d"]] if op.get("d") else []
        ds += [d for d, _ in op.get("items") or []] + op.get("ds", [])
        ps += [W.fD[d].p for d in ds if d in W.fD]
        if op.get("obs") in W.fO:
            ps += [i[0] for i in W.fO[op["obs"]].items]
        return any(p in W.offd for p in ps)

    def run(self, case, stats):
        world.Tol.worst = 0.0
        with using("tensorflow"):
            R = DRunner(case, stats, judge=self.judge)
            R.run()
        stats["max:error relative to tolerance"] = round(world.Tol.worst, 4)
        stats["max:chained conditionings"] = max([M.depth for M in R.W.fM.values()] or [0])
        return {"log": engine.sha(R.log)}


# --------------------------------------------------------------------------------------------------
# Derivatives of results: everything that the user gives moves with one number, `t`.


def direction(a):
    """How what the user gives moves: equal numbers move together."""
    return np.where(np.isnan(a), 0.0, np.sin(37.0 * a + 1.0))


class Moved(Backend):
    """NumPy arrays at one value of `t`."""

    def __init__(self, t):
        Backend.__init__(self, "numpy")
        self.t = t

    def arr(self, a):
        a = np.asarray(a)
        return a + self.t * direction(a) if a.dtype == float else a

    def num(self, v):
        return float(v + self.t * direction(v))


class Tape(Backend):
    """Arrays of a framework that are functions of `t`; keeps the results as they are."""

    def __init__(self, name):
        Backend.__init__(self, name, True)
        self.raw = {}

    def __enter__(self):
        t = np.array(0.0)
        if self.name == "tensorflow":
            import tensorflow as tf

            self.t = tf.constant(t)
            self.tape = tf.GradientTape(persistent=True)
            self.tape.__enter__()
            self.tape.watch(self.t)
        elif self.name == "torch":
            import torch

            self.t = torch.tensor(t, requires_grad=True)
        else:
            self.t = Backend.arr(self, t)
        return self

    def __exit__(self, *args):
        if self.name == "tensorflow":
            self.tape.__exit__(None, None, None)

    def arr(self, a):
        a = np.asarray(a)
        if a.dtype != float:
            return Backend.arr(self, a)
        u = direction(a)
        if self.name == "tensorflow":
            import tensorflow as tf

            return tf.constant(a) + self.t * tf.constant(u)
        if self.name == "torch":
            import torch

            return torch.tensor(a) + self.t * torch.tensor(u)
        return a + self.t * u

    def plain(self, a):
        res = Backend.plain(self, a)
        if res.dtype == float:
            res = np.array(res)
            self.raw[id(res)] = res, a
        return res

    def derivative(self, outs):
        """Derivative of a weighted sum of some results, with respect to `t`; the results are as in `weighted`."""
        raws = [self.raw[id(r)][1] for r in outs]
        ws = weights(outs)
        if self.name == "tensorflow":
            import tensorflow as tf

            raws, ws = zip(*[(a, w) for a, w in zip(raws, ws) if tf.is_tensor(a)] or [((), ())])
            g = self.tape.gradient(list(raws), self.t, output_gradients=[tf.constant(w) for w in ws]) if raws else None
            return 0.0 if g is None else float(g)
        if self.name == "torch":
            import torch

            pairs = [(a, torch.tensor(w)) for a, w in zip(raws, ws) if getattr(a, "requires_grad", False)]
            if not pairs:
                return 0.0
            (g,) = torch.autograd.grad([a for a, _ in pairs], [self.t], [w for _, w in pairs], retain_graph=True, allow_unused=True)
            return 0.0 if g is None else float(g)
        total = 0.0
        for a, w in zip(raws, ws):
            if hasattr(a, "_node"):
                # Paths to `t` only.
                total += _autograd(a, w, self.t)
        return total


def _autograd(a, w, t):
    from autograd.core import backward_pass

    if not _reaches(a._node, t._node, {}):
        return 0.0
    return float(backward_pass(w, a._node))


def _reaches(node, root, seen):
    stack = [node]
    while stack:
        n = stack.pop()
        if n is root:
            return True
        if id(n) not in seen:
            seen[id(n)] = n
            stack += n.parents
    return False


def weights(outs):
    return [np.cos(1.0 + 0.7 * np.arange(r.size).reshape(r.shape) + i) for i, r in enumerate(outs)]


def weighted(outs):
    return float(sum(np.sum(w * r) for w, r in zip(weights(outs), outs)))


class C21(Prop):
    id = "C21"
    runs = {"quick": 500, "thorough": 20000}
    cap = {"quick": 60, "thorough": 900}
    warmup = 6
    names = ["tensorflow", "torch", "autograd"]
    step = 1e-3
    profiles = [
        dict(w=dict(samp=0, ms=0, gc=0, drop=0.1, acc=3, fresh=3, lp=2.5, elbo=1.5, obs=1.2, cond=1), lost=0.1, void=0, maxn=3),
        dict(w=dict(samp=0, ms=0, gc=0, drop=0.1, cond=2, obs=1.5, acc=2, fresh=3, lp=2, elbo=1.5, un=1, bin=1), lost=0.1,
             void=0, deep=0.6, finish=dict(n=3, w=dict(fresh=2, lp=2, qk=1)), maxn=3),
    ]
    rule = (
        "seeded traces of public-API operations by up to three interleaved clients, with all numbers and arrays that the clients "
        "give (parameters, noises, inputs, data) functions of one variable t of TensorFlow, PyTorch, or AutoGrad; the derivative "
        "of every result with respect to t, at t = 0, is compared to differences of the same trace on NumPy arrays; "
        "non-trivial: at least one derivative was compared"
    )
    assumptions = [
        "smooth kernels; no credible bounds and Wasserstein distances, which are not smooth",
        "a derivative is compared to 1e-3 if difference quotients of two step sizes agree to 1e-2",
        "JAX is not run (see C17)",
    ]
    real = REAL + ["TensorFlow, PyTorch and AutoGrad, as installed, on the CPU, eager, one thread"]

    def prepare(self):
        load(self.names)

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        env = gen.env(rng)
        prof = dict(rng.choice(self.profiles), kern=SMOOTH, ints=0, noaccs=["bounds", "std_w2"])
        ops = BackGen(rng, prof).run(rng.choice([10, 15, 25]))
        return {"seed": rng.randrange(1 << 30), "env": env, "backend": rng.choice(self.names), "ops": number(ops)}

    def run(self, case, stats):
        h = self.step
        at = {}
        for t in (0, h, -h, 2 * h, -2 * h):
            with using(t, cls=Moved):
                R = at[t] = NoteRunner(case, stats if t == 0 else {}, lenient=True)
                R.run()
        base = at[0]
        with using(case["backend"], cls=Tape) as back:
            with back:
                R = NoteRunner(case, {}, lenient=True)
                R.run()
            stats["probe:runs on " + case["backend"]] = 1
            for op in case["ops"]:
                k = op["key"]
                if op["o"] not in VALUE_OPS or k not in R.results or k in base.tols:
                    continue
                if any(k not in B.results or failed(B.results[k]) for B in at.values()):
                    continue
                if failed(R.results[k]):
                    raise Violation(f"backend:{op['o']}", "fails, unlike on NumPy", k)
                self.compare(op, back, R.results[k], {t: B.results[k] for t, B in at.items()}, stats)
        return {"log": engine.sha([base.log, R.log])}

    def compare(self, op, back, res, at, stats):
        rs = list(world.flat(res))
        use = [j for j, r in enumerate(rs) if isinstance(r, np.ndarray) and id(r) in back.raw and np.all(np.isfinite(r))]
        v = {}
        for t, other in at.items():
            os = list(world.flat(other))
            if len(os) != len(rs) or any(os[j].shape != rs[j].shape or not np.all(np.isfinite(os[j])) for j in use):
                return
            v[t] = weighted([os[j] for j in use])
        if not use:
            return
        h = self.step
        c1, c2 = (v[h] - v[-h]) / (2 * h), (v[2 * h] - v[-2 * h]) / (4 * h)
        want = (4 * c1 - c2) / 3
        scale = max(1.0, abs(v[0]), abs(c1))
        if not abs(c1 - c2) <= 1e-2 * scale:
            stats["probe:too rough to compare"] = stats.get("probe:too rough to compare", 0) + 1
            return
        try:
            got = back.derivative([rs[j] for j in use])
        except Exception as e:
            # AutoGrad cannot differentiate all matrices of diagonals, and TensorFlow cannot if nothing is taken.
            if isinstance(e, NotImplementedError) and "make_diagonal" in str(e) or "UnsortedSegmentSum" in str(e):
                stats["probe:not implemented by the framework"] = stats.get("probe:not implemented by the framework", 0) + 1
                return
            raise Violation(f"derivative:{op['o']}", f"cannot be computed: {world.short(e)}", op["key"])
        stats["check:derivatives compared"] = stats.get("check:derivatives compared", 0) + 1
        stats["max:difference of derivatives"] = max(stats.get("max:difference of derivatives", 0), round(abs(got - want) / scale, 6))
        if not abs(got - want) <= max(1e-3, 0.1 * abs(c1 - c2) / scale) * scale:
            raise Violation(f"derivative:{op['o']}", f"{got!r} instead of {want!r}", op["key"])
