"""Run a trace on the real library in step with the reference model and check every result."""
import gc

import numpy as np

from . import ref as R
from . import seams, world
from .world import Violation, differs, short

REFUSED = object()
VALUE_OPS = {"qm", "qk", "acc", "fresh", "lp", "elbo", "samp", "ms", "two"}


class Stats(dict):
    pass


def compare(W, op, res, exp):
    """Why the result of a query differs from what the reference gives, or None."""
    o = op["o"]
    tol = None
    if o in ("qm", "qk", "acc", "fresh") and W.rough(op):
        tol = W.rough_tol
    elif o in ("lp", "elbo", "acc", "fresh") and W.degenerate(op):
        tol = 1e-3
    if o in ("qm", "qk", "lp", "elbo"):
        return differs(res, exp, tol=tol)
    if o in ("acc", "fresh"):
        if len(res) != len(exp):
            return "length"
        for i, (k, a, b) in enumerate(zip(op["ks"], res, exp)):
            d = world.acc_differs(k, a, b, tol)
            if d:
                return f"{k} (access {i}): {d}"
        return None
    if o == "ms":
        primary = exp[0] if exp[0] in W.r["M"] else "?"
        exp = sorted(m for m in exp if m in W.r["M"])
        return None if res == [primary, exp] else f"measures {res} instead of {[primary, exp]}"
    if o == "samp":
        return sample_differs(op, res, exp)
    return None


def sample_differs(op, res, exp):
    mu, K, lens = exp
    n = op.get("n") or 1
    T = sum(lens)
    if op.get("how") == "global":
        # `Measure.sample` without a random state squeezes a single sample.
        g = res["global"]
        if len(g) != len(res["draw"]):
            return "number of samples"
        for a, b in zip(g, res["draw"]):
            if a.shape != b.shape or not np.array_equal(a, b):
                return "the global stream gives another sample than the same explicit stream"
        if res["gstate"] != res["after"]:
            return "the global stream is not advanced like the explicit stream"
        return None
    shapes = [tuple(s) for s in res["shapes"]]
    want = [(k, n) for k in lens]
    if not op.get("m"):
        want = [(T, n)]
    if shapes != want:
        return f"shapes {shapes} instead of {want}"
    if not res["same_state"]:
        return "another random state is returned"
    if not res["global_untouched"]:
        return "the global stream is touched"
    if "base" not in res:
        return None
    base, maps, z = res["base"], res["map"], res["z"]
    d = differs(base, np.tile(mu[:, None], (1, n)))
    if d:
        return "mean: " + d
    scale = max(1.0, float(np.max(np.abs(K))) if K.size else 1.0)
    A = np.array(maps) if maps else np.zeros((0, T, n))  # (numbers, T, n)
    for i in range(n):
        for j in range(i + 1):
            C = A[:, :, i].T @ A[:, :, j]
            d = differs(C, K if i == j else np.zeros((T, T)), scale=scale, tol=1e-5)
            if d:
                return f"covariance of samples {i} and {j}: {d}"
    draw = np.concatenate(res["draw"], axis=0)
    lin = base + (np.tensordot(z, A, axes=(0, 0)) if len(z) else 0)
    d = differs(draw, lin, scale=scale * 3, tol=1e-7)
    if d:
        return "not an affine map of the numbers drawn: " + d
    return None


class Runner:
    """Args:
    case: Environment and operations.
    check: Compare to the reference model.
    judge: `judge(world, op) -> bool`: whether the outcome of an operation is decided here.
    lenient: Exceptions are results, nothing is compared.
    """

    def __init__(self, case, stats=None, check=True, judge=None, lenient=False, before=None, after=None):
        self.case = case
        R.BEYOND[0] = bool(case.get("beyond"))
        self.stats = stats if stats is not None else {}
        self.check = check and not lenient
        self.judge = judge
        self.lenient = lenient
        self.W = self.world()
        self.log = []
        self.results = {}
        self.before = before
        self.after = after
        self.counting = {}  # key -> fault points passed, for the operations to count
        self.places = {}  # key -> when the lines of the library were passed
        self.to_count = ()

    def world(self):
        return world.World()

    def inc(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def event(self, i, op, what, v=None):
        self.log.append([i, op["o"], what, world.digest(v) if v is not None else None])

    def ref(self, op):
        """Expected outcome; may raise `Skip`."""
        try:
            with np.errstate(all="ignore"):
                return self.W.ref(op)
        except R.Refused:
            self.W.undo_ref(op)
            return REFUSED
        except R.Reject:
            self.W.undo_ref(op)
            raise world.Skip()

    def step(self, i, op):
        W = self.W
        key = op.get("key", i)
        if key in self.results and "key" in op:
            return
        try:
            exp = self.ref(op)
        except world.Skip:
            self.event(i, op, "skip")
            return
        self.inc("op:" + op["o"])
        self.inc("steps")
        judged = not self.lenient and (self.judge is None or self.judge(W, op))
        fault = op.get("fault")
        raised = None
        res = None
        try:
            res = self.call(key, op, fault)
        except world.Skip:
            W.undo_ref(op)
            self.event(i, op, "skip")
            return
        except Violation:
            raise
        except BaseException as e:
            raised = e
            # Tracebacks keep objects alive.
            tb_clear(e)
        fired = seams.FAULTS.fired if fault else None
        if fault:
            self.inc("fault-fired:" + fired if fired else "fault-idle:" + fault["kind"])
        if fired and fired != "gc":
            if self.after_fault(i, op, fired, raised):
                return
        if raised is not None:
            if isinstance(raised, seams.INJECTED):
                raise Violation(f"late-fault:{op['o']}", short(raised), i)
            if not isinstance(raised, Exception) or isinstance(raised, MemoryError):
                raise Violation(f"exc:{op['o']}:{type(raised).__name__}", short(raised), i)
            if exp is REFUSED:
                self.inc("check:refused")
            elif judged:
                raise Violation(f"exc:{op['o']}:{type(raised).__name__}", short(raised), i)
            W.undo_ref(op)
            for kind, j in W.defines(op):
                W.r[kind].pop(j, None)
            self.results[key] = ["exc"]
            self.event(i, op, "exc")
            self.inputs(i, op)
            return
        if exp is REFUSED:
            if judged:
                raise Violation(f"norefuse:{op['o']}", "the operation is not refused", i)
            for kind, j in W.defines(op):
                W.r[kind].pop(j, None)
            self.results[key] = ["ok"]
            self.event(i, op, "ok")
            return
        if op["o"] in VALUE_OPS:
            if self.check and judged:
                self.inc("check:" + op["o"])
                d = self.compare(op, res, exp)
                if d:
                    raise Violation(f"value:{op['o']}", d, i)
            self.results[key] = res
            self.event(i, op, "ok", None if op["o"] == "samp" else res)
        else:
            self.results[key] = ["ok"]
            self.event(i, op, "ok")
        self.inputs(i, op)

    def compare(self, op, res, exp):
        try:
            with np.errstate(all="ignore"):
                return compare(self.W, op, res, exp)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
            return "malformed result: " + short(e)

    def after_fault(self, i, op, fired, raised):
        """The operation was hit by a fault. Whether it is over."""
        if raised is None:
            if fired in ("interrupt", "callback", "rng"):
                raise Violation(f"swallowed:{fired}:{op['o']}", "the failure is not propagated", i)
            # Memory and factorisation failures may be survived, for example by trying again.
            self.event(i, op, "survived " + fired)
            return False
        if not isinstance(raised, seams.INJECTED):
            if not isinstance(raised, Exception):
                raise Violation(f"masked:{fired}:{op['o']}", short(raised), i)
            if fired in ("interrupt", "rng"):
                raise Violation(f"masked:{fired}:{op['o']}", short(raised), i)
        self.W.undo_ref(op)
        for kind, j in self.W.defines(op):
            self.W.r[kind].pop(j, None)
        self.event(i, op, "fault " + fired)
        self.inputs(i, op)
        return True

    def inputs(self, i, op):
        k = self.W.changed_input()
        if k is not None:
            raise Violation("input", f"array {k} of the caller is changed by {op['o']}", i)

    def call(self, key, op, fault):
        W = self.W
        seams.FAULTS.reset()
        if not fault:
            if key in self.to_count:
                with seams.line_tracer(None) as tr:
                    tr.places = {}
                    res = W.run(op)
                self.counting[key] = dict(seams.FAULTS.counts, line=tr.count)
                self.places[key] = tr.places
                return res
            return W.run(op)
        k = fault["kind"]
        if k in ("interrupt", "memory", "gc"):
            with seams.line_tracer(fault["n"], k, fault.get("op", False)):
                res = W.run(op)
            return res
        seams.FAULTS.arm(fault)
        try:
            return W.run(op)
        finally:
            seams.FAULTS.armed = None

    def run(self):
        case = self.case
        seams.reset(case.get("env") or {}, case.get("seed", 0))
        gc.collect()
        gc.disable()
        try:
            for i, op in enumerate(case["ops"]):
                if self.before:
                    self.before(self, i, op)
                self.step(i, op)
                if self.after:
                    self.after(self, i, op)
        finally:
            gc.enable()
        return self


def tb_clear(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__context__ or e.__cause__


def result_differs(op, a, b, tol=None):
    """Why two results of the library for the same operation differ, or None."""
    fa, fb = failed(a), failed(b)
    if fa or fb:
        return None if fa == fb else ("fails" if fa else "succeeds") + " here, unlike there"
    if op["o"] == "samp":
        return differs(a["draw"], b["draw"], tol=tol)
    try:
        with np.errstate(all="ignore"):
            return differs(a, b, tol=tol)
    except (TypeError, ValueError, AttributeError) as e:
        return "malformed result: " + short(e)


def failed(r):
    return isinstance(r, list) and len(r) == 1 and isinstance(r[0], str) and r[0] == "exc"
