"""Simulated threads: real threads parked on private gates, exactly one runnable at a time.

Which thread runs is decided only by the schedule (a list of decisions that comes with the trace), at
every line (or every bytecode) of the library's source. Locks that the library creates are replaced by
simulated locks, so that a thread that waits for a lock yields to the scheduler instead of blocking.
"""
import sys
import threading
import _thread

_real_lock = threading.Lock
_real_rlock = threading.RLock
_real_condition = threading.Condition
_current = None  # The running `Scheduler`, if any.


class Deadlock(Exception):
    pass


class SimLock:
    """A lock that cooperates with the scheduler; outside a simulation a plain lock."""

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._owner is None or (self._reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking or timeout >= 0:
                return False
            sched = _current
            if sched is None or not sched.owns(me):
                raise Deadlock("lock is held and nobody can release it")
            sched.block()

    def release(self):
        if self._count == 0 or self._owner != _thread.get_ident():
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


def _from_library(depth=2):
    name = sys._getframe(depth).f_globals.get("__name__", "")
    return name == "stheno" or name.startswith("stheno.")


def _lock(*args, **kw):
    return SimLock(False) if _from_library() else _real_lock(*args, **kw)


def _rlock(*args, **kw):
    return SimLock(True) if _from_library() else _real_rlock(*args, **kw)


def install_lock_seam():
    threading.Lock = _lock
    threading.RLock = _rlock


class Killed(BaseException):
    """Unwinds the remaining threads of an abandoned run."""


class Scheduler:
    """Run functions as simulated threads.

    Args:
        fns: One function per thread.
        decide: `decide(step, current, runnable) -> thread`. Called at every yield point.
        prefix: Source path prefix of the frames in which threads can be preempted.
        opcodes: Preempt at every bytecode instead of every line.
    """

    def __init__(self, fns, decide, prefix, opcodes=False, max_steps=400000):
        self.fns = fns
        self.decide = decide
        self.prefix = prefix
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.step = 0
        self.switches = []  # (step, thread) of the actual preemptions.
        self.results = [None] * len(fns)
        self.errors = [None] * len(fns)
        self.done = [False] * len(fns)
        self.blocked = set()
        self.gates = [_real_lock() for _ in fns]
        self.main_gate = _real_lock()
        self.idents = {}
        self.current = None
        self.deadlock = False
        self.killed = False
        self.hook = None  # Called as `hook(thread, frame)` at every yield point: may raise.
        for g in self.gates:
            g.acquire()
        self.main_gate.acquire()

    def owns(self, ident):
        return ident in self.idents

    def _runnable(self):
        return [i for i in range(len(self.fns)) if not self.done[i]]

    def _switch_to(self, me, target):
        """Pass the baton from `me` to `target`."""
        if target == me:
            return
        self.current = target
        self.switches.append((self.step, target))
        self.gates[target].release()
        if me is not None and not self.done[me]:
            self.gates[me].acquire()
            if self.killed:
                raise Killed()

    def _yield(self, frame):
        me = self.current
        self.blocked.clear()
        self.step += 1
        if self.step > self.max_steps:
            raise Killed()
        if self.hook is not None:
            self.hook(me, frame)
        target = self.decide(self.step, me, self._runnable())
        if target != me:
            self._switch_to(me, target)

    def block(self):
        """The current thread waits for a lock: let another thread run."""
        me = self.current
        self.blocked.add(me)
        others = [i for i in self._runnable() if i not in self.blocked]
        if not others:
            self.deadlock = True
            self.killed = True
            raise Killed()
        self.step += 1
        self._switch_to(me, others[self.step % len(others)])

    def rearm(self):
        """Tracing ends when an exception is raised from a trace function."""
        sys.settrace(self._trace)

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        self._yield(frame)
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self._yield(frame)
        return self._local

    def _main(self, i):
        self.gates[i].acquire()
        self.idents[_thread.get_ident()] = i
        try:
            if self.killed:
                raise Killed()
            sys.settrace(self._trace)
            try:
                self.results[i] = self.fns[i]()
            finally:
                sys.settrace(None)
        except Killed:
            self.errors[i] = Killed()
        except BaseException as e:
            e.__traceback__ = None
            self.errors[i] = e
        self.done[i] = True
        rest = self._runnable()
        if not rest:
            self.main_gate.release()
            return
        if self.killed:
            target = rest[0]
        else:
            cands = [j for j in rest if j not in self.blocked] or rest
            self.blocked.clear()
            target = self.decide(-1 - i, None, cands)
        self.current = target
        self.switches.append((self.step, target))
        self.gates[target].release()

    def run(self):
        global _current
        threads = []
        _current = self
        try:
            for i in range(len(self.fns)):
                t = threading.Thread(target=self._main, args=(i,), daemon=True)
                t.start()
                threads.append(t)
            first = self.decide(0, None, self._runnable())
            self.current = first
            self.gates[first].release()
            self.main_gate.acquire()
            for t in threads:
                t.join()
        finally:
            _current = None
        return self.results, self.errors
