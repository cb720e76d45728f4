"""C16: which evaluations of user-supplied functions and kernels take place."""
import json

import numpy as np

from . import engine, gen, seams, world
from .execute import tb_clear
from .props import Prop
from .world import Violation

CHEAP = ["marginals", "bounds", "var_diag", "mean", "mean", "zero"]
FULL = ["mean", "var", "var_diag", "mean_var", "marginals", "bounds", "m2", "dim", "dtype", "zero", "str", "sample",
        "add", "diag"]
# Nothing is evaluated by these.
NO_CALLS = {"gp", "obs", "cond", "measure"}
# These may evaluate the kernel matrix of the data of a posterior, and nothing else.
DATA_CALLS = {"un", "bin", "cross", "fdd"}


class Lazy:
    """Interpreter. Every distribution has inputs of a size of its own, so that the shapes of the evaluations tell
    which distribution they are for."""

    def __init__(self):
        self.s = world.stheno
        self.P, self.M, self.D, self.O, self.measures = {}, {}, {}, {}, {}

    def ready(self, op):
        for k, t in (("p", self.P), ("q", self.P), ("m", self.M), ("d", self.D), ("ob", self.O)):
            if op.get(k) is not None and op[k] not in t:
                return False
        if any(p not in self.P for p in op.get("ps", [])):
            return False
        return not any(op.get("id") in t for t in (self.P, self.M, self.D, self.O))

    def run(self, op):
        s, o = self.s, op["o"]
        if o == "measure":
            self.M[op["id"]] = s.Measure()
        elif o == "gp":
            k = seams.TrackKernel(op["id"], world.real_kernel(op["kernel"]))
            if op["scale"]:
                k = op["scale"] * k
            mean = world.user_fn(op["fn"], op["id"])
            self.P[op["id"]] = s.GP(mean, k, measure=self.M[op["m"]])
        elif o == "un":
            p = self.P[op["p"]]
            self.P[op["id"]] = {
                "neg": lambda: -p, "scale": lambda: 2 * p, "shift": lambda: p.shift(0.3), "add": lambda: p + 1.5,
                "stretch": lambda: p.stretch(1.5), "mulf": lambda: p * world.user_fn([0, 0.5], "uf"),
                "addf": lambda: p + world.user_fn([0, 0.5], "uf"),
            }[op["k"]]()
        elif o == "bin":
            p, q = self.P[op["p"]], self.P[op["q"]]
            self.P[op["id"]] = {"add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q}[op["k"]]()
        elif o == "cross":
            self.P[op["id"]] = s.cross(*[self.P[p] for p in op["ps"]])
        elif o == "fdd":
            p = self.P[op["p"]]
            M = self.M[op["m"]]
            if p.measure is not M:
                p = M(p)
            x = points(op["n"])
            self.D[op["id"]] = p(x, noise(op["noise"], op["n"])) if op["noise"] else p(x)
        elif o == "obs":
            pairs, j = [], 0
            for p, n in zip(op["ps"], op["ns"]):
                y = np.linspace(-1, 1, n)
                pairs.append((self.P[p](points(n), noise(op.get("noise", 0.5), n)), y))
            if op["method"] == "exact":
                self.O[op["id"]] = s.Observations(*pairs) if len(pairs) > 1 else s.Observations(*pairs[0])
            else:
                cls = getattr(s, world.OBS[op["method"]])
                u = self.P[op["ps"][0]](points(op["nz"]))
                self.O[op["id"]] = cls(u, *pairs) if len(pairs) > 1 else cls(u, *pairs[0])
        elif o == "cond":
            self.M[op["id"]] = self.M[op["m"]] | self.O[op["ob"]]
        elif o == "acc":
            d = self.D[op["d"]]
            for k in op["ks"]:
                access(d, k)
        elif o == "elbo":
            self.O[op["ob"]].elbo(self.M[op["m"]])
        else:
            raise ValueError(o)


def access(d, k):
    if k == "sample":
        d.sample(seams.SimRandomState(0))
    else:
        world.acc_real(k, d)


def points(n):
    return np.linspace(-3.0, 3.0, n) + 0.01 * n


def noise(spec, n):
    if spec == "v":
        return np.linspace(0.1, 0.5, n)
    if spec == "M":
        return 0.3 * np.eye(n) + 0.1 * np.ones((n, n))
    return spec


def tally(log):
    out = {}
    for name, kind, shape in log:
        key = (name, kind, tuple(shape))
        out[key] = out.get(key, 0) + 1
    return out


def about(count, n):
    return {k: v for k, v in count.items() if n in k[2]}


class C16(Prop):
    id = "C16"
    rule = (
        "seeded traces of clients that build models, observation objects and posteriors from instrumented kernels and "
        "means and access distributions in any order; every evaluation is counted by the sizes of its inputs, which "
        "identify the distribution; bounds come from one single access each in a fresh copy of the model; non-trivial: "
        "at least one distribution was accessed"
    )
    batch = 10

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        ops = [{"o": "measure", "id": "M0"}]
        size = [1]

        def new():
            size[0] += 1
            return size[0]

        singles, multi, dims = [], [], {}
        nm = [0]

        def name(c):
            nm[0] += 1
            return f"{c}{nm[0]}"

        born = {}
        measures = {"M0": []}  # measure -> obs chain
        members = {"M0": set()}
        fdds, obs = [], {}

        def add(p, single=True):
            (singles if single else multi).append(p)
            for m in members:
                if m == "M0" or True:
                    members[m].add(p)

        def gp():
            p = name("f")
            m = "M0"
            ops.append({"o": "gp", "id": p, "m": m, "kernel": [rng.choice(["eq", "m32", "m52", "m12"])],
                        "scale": rng.choice([None, 2.0]), "fn": [rng.randrange(3), 0.5]})
            singles.append(p)
            members["M0"].add(p)
            root[p] = {"M0"}

        root = {}
        for _ in range(rng.choice([1, 2, 2])):
            gp()
        w = dict(gp=0.4, un=1, bin=1, cross=0.5, fdd=3, obs=1, cond=1.5, acc=7, elbo=0.7)
        # In half of the runs, a few observation objects are used under many measures.
        focus = rng.random() < 0.5
        if focus:
            w = dict(gp=0.1, un=0.3, bin=0.2, cross=0.05, fdd=2, obs=0.4, cond=1.5, acc=4, elbo=1)
        for k in w:
            w[k] *= rng.choice([0.4, 1, 1, 2])
        length = rng.choice([12, 20, 32])
        while len(ops) < length:
            k = gen.pick(rng, w)
            c = rng.randrange(3)
            before = len(ops)
            if k == "gp":
                gp()
            elif k == "un":
                p = rng.choice(singles)
                q = name("u")
                ops.append({"o": "un", "id": q, "p": p,
                            "k": rng.choice(["neg", "scale", "shift", "add", "stretch", "mulf", "addf"])})
                singles.append(q)
                root[q] = set(root[p])
            elif k == "bin":
                p, r = rng.choice(singles), rng.choice(singles)
                q = name("b")
                ops.append({"o": "bin", "id": q, "p": p, "q": r, "k": rng.choice(["add", "add", "sub", "mul"])})
                if p == r and ops[-1]["k"] == "sub":
                    ops[-1]["k"] = "add"
                singles.append(q)
                root[q] = root[p] & root[r]
            elif k == "cross":
                ps = [rng.choice(singles) for _ in range(rng.choice([2, 2, 3]))]
                q = name("c")
                ops.append({"o": "cross", "id": q, "ps": ps})
                multi.append(q)
                root[q] = set.intersection(*[root[p] for p in ps])
            elif k == "fdd":
                p = rng.choice(singles + multi)
                m = rng.choice(sorted(root[p]))
                d = name("d")
                spec = rng.choice([None, 0.1, 0.5, "v", "M"] if p in singles else [None, 0.1, 0.5])
                ops.append({"o": "fdd", "id": d, "p": p, "m": m, "n": new(), "noise": spec})
                fdds.append(d)
            elif k == "obs":
                ps = [rng.choice(singles) for _ in range(rng.choice([1, 1, 2]))]
                o = name("o")
                ops.append({"o": "obs", "id": o, "ps": ps, "ns": [new() for _ in ps], "nz": new(),
                            "method": rng.choice(["exact", "exact", "vfe", "fitc", "dtc"])})
                ops[-1]["noise"] = rng.choice([0.5, 0.5, "v"] + ["M"] * (ops[-1]["method"] == "exact"))
                obs[o] = set.intersection(*[root[p] for p in ps])
            elif k == "cond" and obs:
                o = rng.choice(sorted(obs))
                m = rng.choice(sorted(obs[o]))
                if len(measures[m]) >= 2:
                    continue
                q = name("M")
                ops.append({"o": "cond", "id": q, "m": m, "ob": o})
                measures[q] = measures[m] + [o]
                for p in root:
                    if m in root[p]:
                        root[p].add(q)
                for t in obs:
                    if m in obs[t]:
                        obs[t].add(q)
            elif k == "acc" and fdds:
                ks = [rng.choice(CHEAP if rng.random() < 0.4 else FULL) for _ in range(rng.choice([1, 2, 3, 5]))]
                ops.append({"o": "acc", "d": rng.choice(fdds[-4:]), "ks": ks})
            elif k == "elbo":
                os_ = [op["id"] for op in ops if op["o"] == "obs" and op["method"] != "exact"]
                if os_:
                    o = rng.choice(os_)
                    ops.append({"o": "elbo", "ob": o, "m": rng.choice(sorted(obs[o]))})
            for op in ops[before:]:
                op["c"] = c
        return {"seed": rng.randrange(1 << 30), "env": gen.env(rng), "ops": ops, "focus": focus}

    def build(self, case, conds=None):
        """A copy of the model, without any access."""
        L = Lazy()
        for op in case["ops"]:
            if op["o"] in ("acc", "elbo", "fdd"):
                continue
            if op["o"] == "cond" and conds is not None and op["id"] not in conds:
                continue
            if L.ready(op):
                try:
                    L.run(op)
                except Exception as e:
                    tb_clear(e)
        return L

    def run(self, case, stats):
        def inc(k, n=1):
            stats[k] = stats.get(k, 0) + n

        seams.reset(case["env"], case["seed"])
        L = Lazy()
        total = {}
        accessed = {}
        log = []
        failed = set()
        data = {op["id"]: op for op in case["ops"] if op["o"] == "obs"}
        sizes = {n for op in data.values() for n in op["ns"] + [op["nz"]]}
        used = {}  # observation object -> measures
        for i, op in enumerate(case["ops"]):
            if not L.ready(op):
                continue
            seams.CALLS.reset()
            try:
                L.run(op)
            except Exception as e:
                tb_clear(e)
                # What is right or wrong is decided elsewhere.
                log.append([i, "exc"])
                failed.add(op.get("d") or op.get("id"))
                inc("probe:operations that failed")
            inc("op:" + op["o"])
            inc("steps")
            calls = tally(seams.CALLS.log)
            log.append([i, sorted(map(str, calls.items()))])
            if op["o"] in NO_CALLS and calls:
                raise Violation(f"early:{op['o']}", f"evaluates {sorted(calls)[:3]}", i)
            if op["o"] in DATA_CALLS:
                bad = {k: v for k, v in calls.items() if not set(k[2]) <= sizes}
                prior = len(L.M) == 1 or op.get("m") == "M0"
                if bad or (prior and calls):
                    raise Violation(f"early:{op['o']}", f"evaluates {sorted(bad or calls)[:3]}", i)
            inc("check:" + ("no evaluation" if op["o"] in NO_CALLS | DATA_CALLS else "evaluations counted"))
            if op["o"] == "cond":
                used.setdefault(op["ob"], set()).add(op["m"])
            if op["o"] == "elbo":
                used.setdefault(op["ob"], set()).add(op["m"])
            if op["o"] == "acc":
                accessed.setdefault(op["d"], []).append(i)
            for k, v in calls.items():
                total[k] = total.get(k, 0) + v
        # Each distribution: at most one evaluation of the mean, the variance, and the diagonal.
        budget = {}
        for op in case["ops"]:
            if op["o"] != "fdd" or op["id"] not in accessed or op["id"] in failed or case["focus"]:
                continue
            n = op["n"]
            bound = {}
            ok = True
            for k in ("mean", "var", "var_diag", "marginals"):
                T = self.build(case)
                if not T.ready(op):
                    ok = False
                    break
                try:
                    T.run(op)
                    seams.CALLS.reset()
                    access(T.D[op["id"]], k)
                except Exception as e:
                    tb_clear(e)
                    ok = False
                    break
                c = about(tally(seams.CALLS.log), n)
                if k in ("var_diag", "marginals"):
                    full = [q for q in c if q[1] == "pw" and q[2] == (n, n)]
                    inc("check:diagonal without full covariance")
                    if full:
                        raise Violation("full", f"{k} evaluates the full covariance of {full[0][0]}", op["id"])
                if k != "marginals":
                    for q, v in c.items():
                        bound[q] = bound.get(q, 0) + v
            if not ok:
                continue
            inc("check:at most once")
            for q, v in about(total, n).items():
                if v > bound.get(q, 0):
                    raise Violation(
                        "twice", f"{q} evaluated {v} times for {op['id']}, where one evaluation of each quantity takes "
                        f"{bound.get(q, 0)}", op["id"],
                    )
        # The data: once per measure.
        products = any(op.get("k") == "mul" for op in case["ops"])
        by = {op["id"]: op["ob"] for op in case["ops"] if op["o"] == "cond"}
        parents = {op["id"]: op["m"] for op in case["ops"] if op["o"] == "cond"}
        for oid, ms in used.items():
            op = data[oid]
            names = {k[0] for k in total}
            keys = [n for n in op["ns"]] + ([op["nz"]] if op["method"] != "exact" else [])
            bound = {}
            ok = not failed
            for m in sorted(ms):
                chain, a = set(), m
                while a in parents:
                    chain.add(a)
                    # Conditioning a posterior on the data that it already has mixes the evaluations up.
                    ok = ok and by[a] != oid
                    a = parents[a]
                if not ok:
                    break
                seams.CALLS.reset()
                T = self.build(case, chain)
                if m not in T.M or oid not in T.O:
                    ok = False
                    break
                try:
                    post = T.M[m] | T.O[oid]
                    q = T.P[op["ps"][0]]
                    d = post(q)(points(997))
                    access(d, "mean")
                    access(d, "var")
                    if op["method"] != "exact":
                        T.O[oid].elbo(T.M[m])
                except Exception as e:
                    tb_clear(e)
                    ok = False
                    break
                for k, v in tally(seams.CALLS.log).items():
                    bound[k] = bound.get(k, 0) + v
            if not ok:
                continue
            inc("check:data matrices once per measure")
            inner = set(keys)
            for k, v in total.items():
                # Means are evaluated at the data for every posterior mean; means of products use the diagonals.
                if k[1] == "fn" or (k[1] == "ew" and products) or not set(k[2]) <= inner:
                    continue
                if v > bound.get(k, 0):
                    raise Violation(
                        "data", f"{k} evaluated {v} times in {len(ms)} measures, where once takes {bound.get(k, 0)}", oid
                    )
        return {"log": engine.sha(log)}

    def nontrivial(self, case, out):
        return bool(out["stats"].get("check:at most once") or out["stats"].get("check:data matrices once per measure"))
