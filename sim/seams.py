"""Seams: object identity, garbage collection, randomness, linear algebra, user callbacks, interrupts.

Nothing in /repo is changed: the seams are the module globals the library resolves at run time (`id`),
the class-level `__hash__`, the random-state objects it is given, the NumPy/SciPy entry points it ends up
in, the functions and kernels the user supplies, and the interpreter's trace hook.
"""
import builtins
import gc
import random
import sys
import weakref

import numpy as np
import scipy.linalg as sla

from . import boot

_real_id = builtins.id


class SimFault(Exception):
    """Failure of a user-supplied function or of a random source."""


class SimInterrupt(KeyboardInterrupt):
    """The caller is interrupted."""


class SimMemoryError(MemoryError):
    """An allocation fails."""


class SimLinAlgError(np.linalg.LinAlgError):
    """A matrix factorisation fails."""


INJECTED = (SimFault, SimInterrupt, SimMemoryError, SimLinAlgError)

# --------------------------------------------------------------------------------------------------
# Object identity.


class AddressSpace:
    """Virtual memory addresses, with a policy that decides where objects live.

    Policies: `mono` (never reuse, increasing), `desc` (never reuse, decreasing), `lifo` (reuse the
    address freed last, like a free list), `rand` (random, no reuse), `randreuse` (random, random reuse).
    """

    BASE = 0x7F0000000000

    def __init__(self, policy="mono", seed=0):
        self.policy = policy
        # Aligned like CPython's, or not, which makes the order of small sets depend on the addresses.
        self.align = 16 if seed % 2 else 1
        self.rng = random.Random(seed * 7919 + 13)
        self.table = {}
        self.free = []
        self.n = 0
        self.used = set()
        self.reused = 0
        self.kept = {}  # objects without weak references, such as numbers

    def _fresh(self):
        self.n += 1
        if self.policy in ("rand", "randreuse"):
            while True:
                a = self.BASE + self.align * self.rng.randrange(1, 1 << 20)
                if a not in self.used:
                    self.used.add(a)
                    return a
        if self.policy == "desc":
            return self.BASE + 16 * ((1 << 24) - self.n)
        return self.BASE + 16 * self.n

    def _alloc(self):
        if self.free:
            if self.policy == "lifo":
                self.reused += 1
                return self.free.pop()
            if self.policy == "randreuse" and self.rng.random() < 0.8:
                self.reused += 1
                return self.free.pop(self.rng.randrange(len(self.free)))
        return self._fresh()

    def addr(self, obj):
        rid = _real_id(obj)
        e = self.table.get(rid)
        if e is not None and e[0]() is obj:
            return e[1]
        table, free = self.table, self.free
        k = self.kept.get(rid)
        if k is not None:
            return k[1]
        for i in list(self.kept):
            # Only the table and this loop know it: the program has let go of it.
            if sys.getrefcount(self.kept[i][0]) == 2:
                free.append(self.kept.pop(i)[1])
        a = self._alloc()

        def dead(ref, rid=rid, a=a):
            e = table.get(rid)
            if e is not None and e[0] is ref:
                del table[rid]
            free.append(a)

        try:
            ref = weakref.ref(obj, dead)
        except TypeError:
            self.kept[rid] = (obj, a)
            return a
        table[rid] = (ref, a)
        return a


SPACE = AddressSpace()


def set_space(policy, seed):
    global SPACE
    SPACE = AddressSpace(policy, seed)
    return SPACE


def vid(obj):
    return SPACE.addr(obj)


def _vhash(self):
    return SPACE.addr(self) >> 4


# --------------------------------------------------------------------------------------------------
# Faults.


class Faults:
    """Counts the fault points reached and fires the armed fault."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.armed = None
        self.fired = None
        self.counts = {"chol": 0, "solve": 0, "callback": 0, "rng": 0, "line": 0}
        self.exc = None

    def arm(self, fault):
        self.reset()
        self.armed = fault

    def hit(self, kind):
        self.counts[kind] += 1
        f = self.armed
        if f is not None and f["kind"] == kind and self.counts[kind] == f["n"]:
            self.armed = None
            self.fired = kind
            if kind == "chol":
                self.exc = SimLinAlgError("injected: factorisation failed")
            elif kind == "solve":
                self.exc = SimMemoryError("injected: out of memory")
            else:
                self.exc = SimFault("injected: " + kind)
            raise self.exc


FAULTS = Faults()


class line_tracer:
    """Fire an action at the n-th executed library line (or bytecode): an interrupt, an allocation
    failure, or a garbage collection. Counts the points passed."""

    def __init__(self, n=None, action="interrupt", opcodes=False, extra=None):
        self.n = n
        self.action = action
        self.opcodes = opcodes
        self.count = 0
        self.prefix = boot.REPO + "/stheno/"
        self.fired = False
        self.where = None
        self.extra = extra
        self.places = None  # Or, per line of the library, when it was passed.

    def _point(self, frame):
        self.count += 1
        if self.places is not None:
            place = f"{frame.f_code.co_filename[len(self.prefix):]}:{frame.f_lineno}"
            self.places.setdefault(place, []).append(self.count)
        if self.extra is not None:
            self.extra(self.count)
        if self.count == self.n:
            self.fired = True
            self.where = f"{frame.f_code.co_name}"
            if self.action == "gc":
                FAULTS.fired = "gc"
                gc.collect()
                return
            FAULTS.fired = self.action
            if self.action == "interrupt":
                FAULTS.exc = SimInterrupt("injected: interrupt")
            else:
                FAULTS.exc = SimMemoryError("injected: out of memory")
            raise FAULTS.exc

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self._point(frame)
        return self._local

    def __enter__(self):
        self._prev = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._prev)
        return False


def _wrap(mod, name, kind):
    orig = getattr(mod, name)

    def wrapped(*args, **kw):
        FAULTS.hit(kind)
        return orig(*args, **kw)

    wrapped.__name__ = name
    setattr(mod, name, wrapped)


# --------------------------------------------------------------------------------------------------
# Randomness.


class SimRandomState(np.random.RandomState):
    """A random state that counts (and can fail) draws, and can play back given normal numbers."""

    def __init__(self, seed=0):
        super().__init__(seed)
        self.script = None
        self.drawn = []

    # `RandomState.randn` calls `self.standard_normal`.
    def standard_normal(self, size=None):
        FAULTS.hit("rng")
        shape = () if size is None else (size if isinstance(size, tuple) else (size,))
        shape = tuple(int(s) for s in shape)
        start = self.count
        self.drawn.append(shape)
        if self.script is not None:
            vals = np.asarray(self.script(start, self.count - start), dtype=float)
            return vals.reshape(shape) if shape else float(vals[0])
        return super().standard_normal(size)

    @property
    def count(self):
        return sum(int(np.prod(s)) if s else 1 for s in self.drawn)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


# --------------------------------------------------------------------------------------------------
# User-supplied kernels and functions.


class Calls:
    """Evaluations of user-supplied functions and kernels."""

    def __init__(self):
        self.log = []
        self.enabled = True

    def reset(self):
        self.log = []

    def hit(self, name, kind, shapes):
        self.log.append((name, kind, shapes))
        FAULTS.hit("callback")


CALLS = Calls()
TrackKernel = None


def _define_track_kernel():
    global TrackKernel
    import mlkernels
    from mlkernels import Kernel, elwise, num_elements, pairwise

    class TrackKernel_(Kernel):
        """A user-defined kernel: evaluates `inner` and reports each evaluation."""

        def __init__(self, name, inner):
            self.tname = name
            self.inner = inner

        def render(self, formatter):
            return f"Track({self.tname})"

    import lab as B

    @pairwise.dispatch
    def pairwise(k: TrackKernel_, x: B.Numeric, y: B.Numeric):
        CALLS.hit(k.tname, "pw", (int(num_elements(x)), int(num_elements(y))))
        return mlkernels.pairwise(k.inner, x, y)

    @elwise.dispatch
    def elwise(k: TrackKernel_, x: B.Numeric, y: B.Numeric):
        CALLS.hit(k.tname, "ew", (int(num_elements(x)), int(num_elements(y))))
        return mlkernels.elwise(k.inner, x, y)

    TrackKernel = TrackKernel_


# --------------------------------------------------------------------------------------------------


def install():
    import stheno

    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == "stheno" or name.startswith("stheno.")):
            mod.__dict__["id"] = vid
    for cls in (stheno.GP, stheno.Normal, stheno.FDD, stheno.Measure):
        for c in cls.__mro__[:-1]:
            if c.__module__.startswith("stheno") and c.__hash__ is object.__hash__:
                c.__hash__ = _vhash
    _wrap(np.linalg, "cholesky", "chol")
    _wrap(sla, "solve_triangular", "solve")
    _define_track_kernel()


def reset(env, seed):
    """Start of a run: everything that carries over between runs is reset."""
    import stheno

    FAULTS.reset()
    CALLS.reset()
    stheno.Measure.default = None
    np.random.seed(seed % (1 << 32))
    return set_space(env.get("ids", "mono"), env.get("idseed", 0))
