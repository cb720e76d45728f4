"""C18: batched computation, by histories in which data and inputs have leading batch dimensions.

One trace, several executions of the reference model: every batch element has its own. The library runs
the trace once, on stacked arrays.
"""
import numpy as np

from . import engine, gen, world
from . import ref as R
from .execute import Runner
from .props import REAL, STUB, Prop, WorldProp
from .world import Skip, World, acc_differs, dense, differs


class BWorld(World):
    """Args:
    bs: Batch dimensions.
    """

    def __init__(self, bs, real=True):
        World.__init__(self, real=real)
        self.bs = tuple(bs)
        self.size = int(np.prod(self.bs))
        self.others = [World(real=False) for _ in range(self.size - 1)]
        self.bx, self.by, self.bd, self.bo = set(), set(), set(), set()

    # The reference, once for every element of the batch.

    def element(self, op, s):
        if s and op["o"] in ("x", "y") and op.get("vb") is not None:
            return dict(op, v=op["vb"][s - 1])
        if len(op.get("noise") or [] if op["o"] != "samp" else []) == 3:
            # Every element has its own noise.
            t, v, vb = op["noise"]
            return dict(op, noise=[t, vb[s - 1] if s else v])
        return op

    def ref(self, op):
        if not self.ready(op):
            raise Skip()
        self.suited(op)
        out, refused = [], 0
        for s, w in enumerate([self] + self.others):
            try:
                out.append(getattr(w, "f_" + op["o"])(self.element(op, s)))
            except R.Refused:
                refused += 1
        if refused == self.size:
            raise R.Refused("refused for every element")
        if refused:
            raise R.Reject("refused for some elements")
        self.note(op)
        return out

    def undo_ref(self, op):
        World.undo_ref(self, op)
        for w in self.others:
            w.undo_ref(op)
        for s in (self.bx, self.by, self.bd, self.bo):
            s.discard(op.get("id"))

    def f_drop(self, op):
        World.f_drop(self, op)

    # What is batched.

    def xy(self, items):
        return [d in self.bd for d, _ in items], [y in self.by for _, y in items]

    def suited(self, op):
        """Inputs that go into one array must agree."""
        o = op["o"]

        def same(fs):
            if len(set(fs)) > 1:
                raise R.Reject("mixed")

        if o in ("fdd", "fresh") and len(op.get("noise") or []) == 3 and (not op.get("x") or op["x"] not in self.bx):
            raise R.Reject("mixed")
        same([d in self.bd for d in op.get("parts") or []])
        same([d in self.bd for d in op.get("us") or []])
        if o in ("comb", "samp"):
            same([d in self.bd for d in op["ds"]])
        if o == "samp" and op["ds"][0] not in self.bd:
            raise R.Reject("not batched")
        if op.get("y") and np.isnan(self.fy[op["y"]]).any() and (
            op["x"] in self.bx if o == "fresh" else op["d"] in self.bd
        ):
            raise R.Reject("lost data of a batch")
        if op.get("items"):
            xs, ys = self.xy(op["items"])
            same(xs)
            same(ys)
            if any(d in self.bd and np.isnan(self.fy[y]).any() for d, y in op["items"]):
                raise R.Reject("lost data of a batch")
            if any(ys) and not all(xs) and len(xs) > 1:
                raise R.Reject("mixed")

    def note(self, op):
        o = op["o"]
        if o == "x" and op.get("vb") is not None:
            self.bx.add(op["id"])
        if o == "y" and op.get("vb") is not None:
            self.by.add(op["id"])
        if o == "fdd" and (op["x"] in self.bx if op.get("x") else any(d in self.bd for d in op["parts"])):
            self.bd.add(op["id"])
        if o == "mfdd" and op["d"] in self.bd or o == "comb" and any(d in self.bd for d in op["ds"]):
            self.bd.add(op["id"])
        if o == "obs" and (any(map(any, self.xy(op["items"]))) or any(d in self.bd for d in op.get("us") or [])):
            self.bo.add(op["id"])

    def strict(self, op):
        """Whether the result must have the batch dimensions: what the operation is given has them."""
        o = op["o"]
        if o in ("qm", "qk", "fresh"):
            return op["x"] in self.bx or op.get("y2") in self.bx
        if o == "acc":
            return op["d"] in self.bd
        if o == "two":
            return op["d"] in self.bd or op["e"] in self.bd
        if o in ("lp", "elbo"):
            if op.get("obs"):
                return op["obs"] in self.bo
            return any(map(any, self.xy(op["items"])))
        return False

    # The library.

    def r_x(self, op):
        if op.get("vb") is None:
            return World.r_x(self, op)
        t = int if op["f"][0] == "i" else float
        d = 2 if op["f"][-1] == "m" else 1
        v = np.array([op["v"]] + op["vb"], dtype=t).reshape(self.bs + (-1, d))
        self.r["x"][op["id"]] = self._track_input(v)

    def r_y(self, op):
        if op.get("vb") is None:
            return World.r_y(self, op)
        v = np.array([op["v"]] + op["vb"], dtype=float).reshape(self.bs + (-1, 1))
        self.r["y"][op["id"]] = self._track_input(v)


    def _noise(self, spec):
        if spec is None or len(spec) == 2:
            return World._noise(self, spec)
        v = np.array([spec[1]] + spec[2], dtype=float)
        a = self._track_input(v.reshape(self.bs + v.shape[1:]))
        return a if spec[0] == "M" else world.matrix.Diagonal(a)


class Shape(Exception):
    pass


class BRunner(Runner):
    def world(self):
        return BWorld(self.case["batch"])

    def cut(self, a, e, s, strict):
        """The part of a result that belongs to one element of the batch."""
        if isinstance(e, (list, tuple)):
            if not isinstance(a, (list, tuple)) or len(a) != len(e):
                raise Shape("structure")
            return [self.cut(u, v, s, strict) for u, v in zip(a, e)]
        if not isinstance(e, np.ndarray):
            return a
        a, bs = np.asarray(a), self.W.bs
        k = len(bs)
        if a.ndim == e.ndim + k and (a.shape[:k] == bs or not strict):
            return np.broadcast_to(a, bs + a.shape[k:])[np.unravel_index(s, bs)]
        if a.ndim == e.ndim and not strict:
            return a
        raise Shape(f"shape {a.shape} instead of {bs + e.shape}")

    def compare(self, op, res, exp):
        W, o = self.W, op["o"]
        if o == "ms":
            return Runner.compare(self, op, res, exp[0])
        strict = W.strict(op)
        tol = None
        ws = [W] + W.others
        if o in ("qm", "qk", "acc", "fresh", "two") and any(w.rough(op) for w in ws):
            tol = 1e-3
        elif o in ("lp", "elbo", "acc", "fresh", "two") and any(w.degenerate(op) for w in ws):
            tol = 1e-3
        try:
            if o == "samp":
                return self.samples(op, res, exp)
            with np.errstate(all="ignore"):
                for s, e in enumerate(exp):
                    why = self.element(op, o, s, e, res, strict, tol)
                    if why:
                        return f"element {s}: {why}"
        except Shape as err:
            return str(err)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError) as err:
            return "malformed result: " + world.short(err)

    def element(self, op, o, s, e, res, strict, tol):
        if o in ("acc", "fresh"):
            if len(res) != len(e):
                return "length"
            for i, (k, a, b) in enumerate(zip(op["ks"], res, e)):
                try:
                    d = acc_differs(k, a if k in ("zero", "dim", "dtype", "str") else self.cut(a, b, s, strict), b, tol)
                except Shape as err:
                    d = str(err)
                if d:
                    return f"{k} (access {i}): {d}"
            return None
        if o == "two":
            return acc_differs(op["k"], self.cut(res, e, s, strict), e, tol)
        return differs(self.cut(res, e, s, strict), e, tol=tol)

    def samples(self, op, res, exp):
        W = self.W
        bs, n = W.bs, op.get("n") or 1
        lens = exp[0][2]
        T = sum(lens)
        if op.get("how") == "global":
            for a, b in zip(res["global"], res["draw"]):
                if a.shape != b.shape or not np.array_equal(a, b):
                    return "the global stream gives another sample than the same explicit stream"
            return None if res["gstate"] == res["after"] else "the global stream is not advanced like the explicit stream"
        shapes = [tuple(s) for s in res["shapes"]]
        want = [bs + (k, n) for k in lens] if op.get("m") else [bs + (T, n)]
        if shapes != want:
            return f"shapes {shapes} instead of {want}"
        if not res["same_state"]:
            return "another random state is returned"
        if not res["global_untouched"]:
            return "the global stream is touched"
        if "base" not in res or not T:
            return None
        # Structured variances: the matrix library draws numbers that have no batch dimensions only once.
        structured = any(self.W.fM[m].low_rank(self.W.fD[d].p) for d in op["ds"] for m in self.W.fP[self.W.fD[d].p])
        base = res["base"].reshape(-1, T, n)
        A = np.array(res["map"]).reshape(-1, W.size, T, n)
        for s in range(W.size):
            mu, K, _ = exp[s]
            d = differs(base[s], np.tile(mu[:, None], (1, n)))
            if d:
                return f"element {s}: mean: {d}"
            scale = max(1.0, float(np.max(np.abs(K))))
            for t in [s] if structured else range(s + 1):
                for i in range(n):
                    for j in range(n):
                        C = A[:, s, :, i].T @ A[:, t, :, j]
                        d = differs(C, K if (s, i) == (t, j) else np.zeros((T, T)), scale=scale, tol=1e-5)
                        if d:
                            return f"covariance of samples {i} and {j} of elements {s} and {t}: {d}"


class BGen(gen.Gen):
    def __init__(self, rng, profile, bs):
        self.bs = tuple(bs)
        gen.Gen.__init__(self, rng, profile)

    def world(self):
        return BWorld(self.bs, real=False)

    def emit(self, op):
        rng, size = self.rng, int(np.prod(self.bs))
        if op["o"] == "x" and op["id"] not in self.void and rng.random() < self.profile.get("pb", 0.75):
            n = len(op["v"]) // self.d
            op["vb"] = []
            for _ in range(size - 1):
                if op["f"][0] == "i":
                    v = [u for g in rng.sample(range(-3, 4), n) for u in [g] + [rng.randint(-2, 2)] * (self.d - 1)]
                else:
                    v = [u for row in self.points(n) for u in row]
                op["vb"].append(v)
            op["f"] = op["f"][:-1] + ("m" if self.d > 1 else "c")
        if op["o"] == "y" and None not in op["v"] and rng.random() < self.profile.get("pb", 0.75):
            op["vb"] = [[round(rng.gauss(0, 1.2), 3) for _ in op["v"]] for _ in range(size - 1)]
            op["f"] = "c"
        spec = op.get("noise") if op["o"] in ("fdd", "fresh") else None
        if spec and len(spec) == 2 and spec[0] in ("M", "D") and op.get("x") in self.W.bx and rng.random() < 0.5:
            op["noise"] = spec + [[self.noise_of(spec[0], len(spec[1])) for _ in range(size - 1)]]
        return gen.Gen.emit(self, op)

    def noise_of(self, t, n):
        while True:
            spec = self.noise(n)
            if spec and spec[0] == t:
                return spec[1]

    def check_value(self, op, v):
        for u in v:
            gen.Gen.check_value(self, op, u)

    def g_two(self):
        d = self.any("D", 0.5)
        if d is None:
            return self.g_fdd()
        n = len(self.W.fD[d].noise)
        e = self.any("D", 0.3, lambda e: len(self.W.fD[e].noise) == n)
        return self.emit({"o": "two", "d": d, "e": e, "k": self.rng.choice(["kl", "w2", "nsum"])})


class C18(WorldProp):
    id = "C18"
    runs = {"quick": 1200, "thorough": 30000}
    cap = {"quick": 60, "thorough": 900}
    profiles = [
        dict(w=dict(two=1.5, elbo=1, obs=1.2, cond=2, pcond=0.6, lp=1.5, fresh=2.5, acc=3, ms=0.05, measure=0.1, samp=1),
             lost=0.05, deep=0.5, maxn=3),
        dict(w=dict(two=0.5, elbo=0.3, obs=0.5, cond=1, pcond=0.3, cross=1.2, comb=1, lp=1.5, fresh=2.5, acc=3, ms=0.05,
                    measure=0.1, samp=1.5), lost=0, deep=0.5, maxn=3, methods=dict(exact=1)),
        dict(w=dict(two=1, elbo=0, obs=0, cond=0.3, pcond=0, un=3, bin=2.5, qk=4, qm=2, fresh=2, acc=2, lp=0.6, ms=0, samp=0.6),
             lost=0, maxn=3, methods=dict(exact=1), finish=None),
    ]
    rule = (
        "seeded traces of public-API operations by up to three interleaved clients in which inputs and data have "
        "leading batch dimensions (one or two of them, of size one to three), also mixed with unbatched ones; every result "
        "is compared to those of one reference model per batch element; non-trivial: at least one result was compared"
    )
    assumptions = [
        "missing data only in unbatched observations (the library documents that it does not handle it in batches)",
        "inputs that are combined into one array (joint observations, inputs of one product) are all batched or all not",
    ]

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        env = gen.env(rng)
        bs = rng.choice([[2], [2], [3], [1], [2, 2], [1, 2], [2, 1]])
        g = BGen(rng, rng.choice(self.profiles), bs)
        n = rng.choice([12, 25, 40] if tier == "quick" else [12, 25, 40, 60])
        return {"seed": rng.randrange(1 << 30), "env": env, "batch": bs, "ops": g.run(n)}

    def run(self, case, stats):
        world.Tol.worst = 0.0
        r = BRunner(case, stats)
        r.run()
        stats["max:error relative to tolerance"] = round(world.Tol.worst, 4)
        stats["max:batch elements"] = r.W.size
        return {"log": engine.sha(r.log)}

    def simpler(self, case):
        yield from WorldProp.simpler(self, case)
        if case["batch"] not in ([1], [2]):
            size = 2
            ops = [dict(op, vb=op["vb"][: size - 1]) if op.get("vb") else op for op in case["ops"]]
            if int(np.prod(case["batch"])) > 2:
                yield dict(case, batch=[2], ops=ops)
        for i, op in enumerate(case["ops"]):
            if op.get("vb") is not None:
                ops = list(case["ops"])
                ops[i] = {k: v for k, v in op.items() if k != "vb"}
                yield dict(case, ops=ops)
