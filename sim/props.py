"""The properties and how each is decided."""
import copy
import json

from . import engine, gen, seams, world
from .execute import Runner, failed, result_differs
from .world import Violation

REAL = [
    "stheno (all of it, imported from the working tree, single process)",
    "mlkernels, matrix, LAB, plum, fdm, NumPy, SciPy (third-party code as installed)",
]
STUB = [
    "object identity: the global `id` of the library's modules and the identity hashes of its classes come "
    "from a simulated address space",
    "random states handed to the library: seeded generators that count, script or fail draws",
    "user-supplied functions and kernels: generated ones that report each evaluation",
]


def ops_signature(ops):
    return [
        [op["o"], op.get("k"), op.get("kind"), op.get("method"), op.get("form"), len(op.get("items") or [])]
        for op in ops
    ]


class Prop:
    id = None
    runs = {"quick": 1000, "thorough": 20000}
    cap = {"quick": 60, "thorough": 1200}
    batch = 12
    warmup = 6
    audits = 6
    minimise_s = 60
    real = REAL
    stub = STUB
    assumptions = []
    rule = ""
    schedule_rule = "distinct sequences (client, kind of operation)"

    def prepare(self):
        """Import what is needed, before processes are forked."""

    def gen(self, seed, i, tier):
        raise NotImplementedError

    def run(self, case, stats):
        raise NotImplementedError

    def signature(self, case, out):
        return ops_signature(case["ops"])

    def schedule(self, case):
        return [[op.get("c"), op["o"]] for op in case["ops"]]

    def nontrivial(self, case, out):
        return any(k.startswith("check:") and v for k, v in out.get("stats", {}).items())

    def lists(self, case):
        return [["ops"]]

    def simpler(self, case):
        """Candidates for simpler cases, after operations have been dropped."""
        if case.get("env") and case["env"].get("ids") != "mono":
            yield dict(case, env={"ids": "mono", "idseed": 0})
        for i, op in enumerate(case.get("ops", [])):
            for cand in simpler_op(op):
                c = json.loads(json.dumps(case))
                c["ops"][i] = cand
                yield c


def simpler_op(op):
    if len(op.get("ks") or []) > 1:
        for j in range(len(op["ks"])):
            yield dict(op, ks=op["ks"][:j] + op["ks"][j + 1 :])
    if len(op.get("items") or []) > 1:
        for j in range(len(op["items"])):
            yield dict(op, items=op["items"][:j] + op["items"][j + 1 :])
    for k in ("via", "t", "ut", "pm", "noise"):
        if op.get(k) is not None and (k != "noise" or op["o"] == "fresh"):
            c = dict(op)
            del c[k]
            yield c
    if op["o"] == "gp" and op.get("mean") and op["mean"][0] not in ("zero", "none"):
        yield dict(op, mean=["none"])
    if op["o"] == "gp" and op.get("kernel") and op["kernel"][0] != "eq":
        yield dict(op, kernel=["eq"])


def measure_of(W, op):
    """The measure that an operation asks about, or None."""
    o = op["o"]
    if op.get("m"):
        return op["m"]
    if o == "acc":
        return W.primary(W.fD[op["d"]].p)
    if o == "samp":
        return W.primary(W.fD[op["ds"][0]].p)
    if o == "lp" and op.get("items"):
        return W.primary(W.fD[op["items"][0][0]].p)
    return None


def posterior(W, op):
    m = measure_of(W, op)
    return m is not None and m in W.fM and W.fM[m].depth > 0


class WorldProp(Prop):
    """Run clients' operations on the library in step with the reference model."""

    profiles = [{}]
    lengths = [12, 25, 45]
    rule = (
        "seeded traces of public-API operations by up to three interleaved clients on shared models; every "
        "result is compared to the reference model; non-trivial: at least one result was compared"
    )

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        env = gen.env(rng)
        g = gen.Gen(rng, rng.choice(self.profiles))
        n = rng.choice(self.lengths if tier == "quick" else self.lengths + [70])
        return {"seed": rng.randrange(1 << 30), "env": env, "ops": g.run(n)}

    def judge(self, W, op):
        return True

    def run(self, case, stats):
        world.Tol.worst = 0.0
        R = Runner(case, stats, judge=self.judge)
        R.run()
        self.final(R, case, stats)
        stats["max:error relative to tolerance"] = round(world.Tol.worst, 4)
        stats["max:measures of one process"] = max([len(m) for m in R.W.fP.values()] or [0])
        stats["max:chained conditionings"] = max([M.depth for M in R.W.fM.values()] or [0])
        return {"log": engine.sha(R.log)}

    def final(self, R, case, stats):
        pass


NOINF = dict(cond=0, pcond=0, obs=0, elbo=0, moobs=0, joint=0)


class C01(WorldProp):
    id = "C01"
    profiles = [
        dict(w=dict(NOINF, un=3.5, bin=3, qk=5, qm=2.5, acc=1.5, fresh=1.5, lp=0.1, samp=0, cross=0.2, comb=0.1,
                    ms=0.1, mfdd=0.1), noaccs=["entropy", "logpdf", "self_kl", "std_kl", "std_w2"], mul=1.2),
        dict(w=dict(NOINF, un=2, bin=4, qk=6, qm=2.5, acc=1, fresh=2, lp=0, samp=0, cross=0, comb=0, measure=0.6,
                    ms=0.1, apply=1, mfdd=0.1), noaccs=["entropy", "logpdf", "self_kl", "std_kl", "std_w2"], mul=3),
        dict(w=dict(cond=0.4, pcond=0.2, obs=0.2, elbo=0, un=3.5, bin=3, qk=5, qm=2.5, acc=1.5, fresh=2, lp=0,
                    samp=0, cross=0.2, comb=0, ms=0.1), noaccs=["entropy", "logpdf", "self_kl", "std_kl", "std_w2"],
             methods=dict(exact=1), lost=0),
    ]
    assumptions = [
        "finite-difference derivatives are compared to 1e-3, everything else to 3e-6, relative to the magnitude",
        "multi-output processes only as in C15; constants and functions are not added to them",
    ]


POST = dict(n=4, w=dict(qk=2, qm=1, fresh=2))


class C02(WorldProp):
    id = "C02"
    profiles = [
        dict(w=dict(cond=3, pcond=1, obs=1.2, elbo=0, un=1.5, bin=1.5, qk=4, qm=2.5, acc=1.5, fresh=3, lp=0.6, samp=0,
                    cross=0.2, comb=0.2, ms=0.1, joint=0.5), deep=0.85, finish=POST, void=0.08, methods=dict(exact=1), lost=0),
        dict(w=dict(cond=3, pcond=1.5, obs=2, elbo=0, un=2.5, bin=2.5, gp=1.5, qk=5, qm=2.5, acc=1, fresh=3, lp=0.5,
                    samp=0, cross=0, comb=0, ms=0, apply=1.5, joint=0.4), deep=0.85, finish=POST, void=0.08, methods=dict(exact=1), lost=0, share=0.5),
    ]
    assumptions = ["noise-free data only where the data covariance is well conditioned (library regularisation 1e-12)"]

    def judge(self, W, op):
        return op["o"] in ("obs", "cond", "pcond", "apply", "ms") or posterior(W, op)


class C04(WorldProp):
    id = "C04"
    profiles = [
        dict(w=dict(cond=3, pcond=1, obs=2, elbo=1.5, lp=3, qk=2, qm=2, fresh=2.5, acc=2, samp=0, cross=0.8, comb=0.6),
             lost=0.75, deep=0.85, finish=POST, accs=["logpdf", "logpdf", "mean", "var", "marginals"]),
        dict(w=dict(cond=3, pcond=1, obs=2, elbo=0, lp=3, qk=2, qm=2, fresh=2.5, acc=1, samp=0, cross=1.5, comb=1.5,
                    un=1, bin=1, moobs=1.5), nest=0.5, lost=0.8, deep=0.85, finish=POST, methods=dict(exact=1), accs=["logpdf", "mean", "var", "marginals"],
             noise=dict(s=2, v=2, M=2, D=1, none=0.5)),
    ]
    rule = (
        "seeded traces of public-API operations in which data values are lost; the reference model removes lost "
        "values with their inputs and noise; a disagreement counts if it goes away when nothing is lost; "
        "non-trivial: at least one result was compared and at least one value was lost"
    )

    def judge(self, W, op):
        return op["o"] in ("obs", "cond", "pcond", "lp", "elbo") or posterior(W, op) or bool(op.get("y"))

    def run(self, case, stats):
        lost = sum(u is None for op in case["ops"] if op["o"] == "y" for u in op["v"])
        stats["fault-fired:lost observation"] = lost
        try:
            return super().run(case, stats)
        except Violation as v:
            # Not about lost data if it is the same without any.
            ops = copy.deepcopy(case["ops"])
            for op in ops:
                if op["o"] == "y":
                    op["v"] = [0.321 + 0.1 * j if u is None else u for j, u in enumerate(op["v"])]
            try:
                super().run(dict(case, ops=ops), {})
            except Violation as w:
                if w.cls == v.cls and w.op == v.op:
                    stats["probe:not about lost data"] = 1
                    return {"log": "unattributed"}
            raise v

    def nontrivial(self, case, out):
        return super().nontrivial(case, out) and bool(out["stats"].get("fault-fired:lost observation"))


class C05(WorldProp):
    id = "C05"
    profiles = [
        dict(w=dict(cond=2, pcond=0.6, obs=3, elbo=4, lp=0.3, qk=2.5, qm=2, fresh=2.5, acc=1, samp=0, cross=0.2,
                    comb=0.2, un=1.5, bin=1.5), deep=0.85, finish=POST, condobs=0.9, methods=dict(vfe=1, fitc=1, dtc=1), lost=0.05,
             noise=dict(s=3, v=2, M=0.6, D=1, none=0.5)),
        dict(w=dict(cond=2, pcond=0.6, obs=2.5, elbo=3.5, lp=0.3, qk=2.5, qm=2, fresh=2.5, acc=1, samp=0, cross=0.5,
                    comb=0.4, un=1, bin=1, measure=0.1), deep=0.85, finish=POST, condobs=0.9, methods=dict(exact=0.5, vfe=1, fitc=1, dtc=1), lost=0.0,
             noise=dict(s=3, v=2, M=1, D=1, none=0.2), refused=1),
    ]
    assumptions = ["noise at least 1e-3; inducing covariances well conditioned (library regularisation 1e-12)"]

    def judge(self, W, op):
        if op["o"] in ("obs", "elbo", "cond", "pcond"):
            return True
        m = measure_of(W, op)
        while m is not None and m in W.fM and W.fM[m].parent is not None:
            if W.fM[m].kind == "pseudo":
                return True
            m = next((k for k, M in W.fM.items() if M is W.fM[m].parent), None)
        return False


class C06(WorldProp):
    id = "C06"
    profiles = [
        dict(w=dict(samp=7, cond=0.8, pcond=0.3, obs=0.4, elbo=0, qk=0.3, qm=0.3, acc=0.6, fresh=0.5, lp=0.2, cross=0.8,
                    comb=0.6, fdd=3, gp=2.5), methods=dict(exact=1, vfe=0.5), lost=0.05),
    ]
    rule = (
        "seeded traces in which interleaved clients sample from explicit and global random states; the affine map "
        "from the drawn numbers to the samples is recovered by playing back scripted numbers and compared to the mean "
        "and covariance of the model; non-trivial: at least one sample was checked"
    )

    def judge(self, W, op):
        return op["o"] == "samp"

    def run(self, case, stats):
        info = super().run(case, stats)
        return info


class C07(WorldProp):
    id = "C07"
    profiles = [
        dict(w=dict(measure=0.8, gp=3, un=2.5, bin=3, apply=1.5, cross=1.2, fdd=1.2, comb=0.6, mfdd=0.4, obs=0.5, cond=3,
                    pcond=1.2, qm=1, qk=0.8, acc=0.3, fresh=0.5, lp=0.1, elbo=0, samp=0.1, ms=4), maxn=2,
             methods=dict(exact=1), refused=1, lost=0),
    ]
    lengths = [15, 30, 50]
    rule = (
        "seeded traces that build processes in many measures under random memory layouts (hash orders); the primary "
        "measure and the measures in which a process can be evaluated are compared to the reference model, and "
        "mixing measures must be refused; non-trivial: at least one membership was compared"
    )

    def judge(self, W, op):
        if op["o"] in ("bin", "cross", "comb"):
            return True
        return op["o"] in ("ms", "un", "apply", "pcond", "mfdd", "qm")


class C15(WorldProp):
    id = "C15"
    profiles = [
        dict(w=dict(cross=3, comb=2, fdd=3, mfdd=0.8, lp=2.5, cond=1.5, pcond=0.5, obs=0.6, elbo=0.3, qk=3, qm=1.5, acc=2,
                    fresh=2, samp=0.6, un=1.5, bin=1.2, moobs=1, joint=1), lost=0.05, maxn=3, nest=0.3),
        dict(w=dict(NOINF, cross=4, comb=2, fdd=3, mfdd=0.8, lp=2.5, qk=4, qm=2, acc=2, fresh=2, samp=0.6, un=2, bin=1.5),
             lost=0.0, maxn=3, parts1=0.3),
    ]
    assumptions = [
        "multi-output processes are products, or derived from products by the operations the library supports for "
        "them (no constants or functions added or multiplied in; element-wise evaluation of combinations of different "
        "products is refused by design)",
    ]


# --------------------------------------------------------------------------------------------------
# Differential properties: the library against itself.


def number(ops):
    for k, op in enumerate(ops):
        op["key"] = k
    return ops


def table():
    from . import backends, batched, diff, laziness, normals, small, threads  # noqa: F401

    out = {}

    def add(c):
        for d in c.__subclasses__():
            if d.id:
                out[d.id] = d
            add(d)

    add(Prop)
    return out


def get(pid):
    world.bind()
    return table()[pid]()
