"""C08, C09 and C11: default measures, names, and lazy containers, against small models."""
import contextlib
import gc
import json

import numpy as np

from . import engine, gen, seams, world
from .execute import tb_clear
from .props import Prop
from .world import Violation, short


class Base(Prop):
    runs = {"quick": 2000, "thorough": 60000}
    cap = {"quick": 40, "thorough": 900}
    batch = 25

    def run(self, case, stats):
        self.stats = stats
        self.log = []
        seams.reset(case["env"], case["seed"])
        gc.collect()
        gc.disable()
        try:
            self.go(case)
        finally:
            gc.enable()
        return {"log": engine.sha(self.log)}

    def inc(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


# --------------------------------------------------------------------------------------------------


class Custom(Exception):
    pass


class Stop(BaseException):
    pass


def raise_kind(kind):
    if kind == "zero":
        return 1 // 0
    if kind == "key":
        return {}["missing"]
    raise {
        "custom": Custom, "runtime": RuntimeError, "interrupt": KeyboardInterrupt, "exit": SystemExit,
        "stopiteration": StopIteration, "base": Stop, "assert": AssertionError, "memory": MemoryError,
        "recursion": RecursionError, "generatorexit": GeneratorExit,
    }[kind]("injected")


RAISES = ["zero", "key", "custom", "runtime", "interrupt", "exit", "stopiteration", "base", "assert", "memory",
          "recursion", "generatorexit"]
STYLES = ["with", "with", "with", "stack", "generator", "function", "loop", "pair", "decorated"]
HOWS = ["end", "return", "break", "continue"]


class C08(Base):
    id = "C08"
    rule = (
        "seeded programs of nested, re-entered, reused and abandoned with-blocks on prior and posterior measures, left "
        "normally, by control flow, by closing a generator, by exceptions of the caller or the library, or by an "
        "interrupt injected inside a library call; the measure of every process created is compared to a stack; "
        "non-trivial: at least one process was created without an explicit measure"
    )
    stub = [
        "object identity: the global `id` of the library's modules and the identity hashes of its classes come from a "
        "simulated address space",
        "interrupts and allocation failures are injected by a trace hook at seeded lines of the library",
    ]

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        ops = []
        n = rng.choice([8, 15, 30] + ([60] if tier == "thorough" else []))
        n_ms = rng.choice([1, 2, 3])
        ms = [f"m{j}" for j in range(n_ms)]
        w = dict(enter=3, leave=2.5, fail=1, gp=3, un=0.6, bin=0.6, cond=0.6, bad=0.6, fault=0.8, apply=0.3, cross=0.2)
        for k in w:
            w[k] *= rng.choice([0.3, 1, 1, 2.5])
        depth = 0
        for _ in range(n):
            k = gen.pick(rng, w)
            c = depth
            if k == "enter":
                if depth > 5:
                    continue
                ops.append({"o": "enter", "m": rng.randrange(8), "m2": rng.randrange(8), "style": rng.choice(STYLES)})
                depth += 1
            elif k == "leave":
                ops.append({"o": "leave", "how": rng.choice(HOWS)})
                depth = max(depth - 1, 0)
            elif k == "fail":
                up = rng.choice([1, 1, 2, 3, 9])
                ops.append({"o": "fail", "kind": rng.choice(RAISES), "up": up})
                depth = max(depth - up, 0)
            elif k == "gp":
                ops.append({"o": "gp", "m": rng.choice([None, None, None, rng.randrange(8)]),
                            "k": rng.choice(["eq", "mean", "fn", "num", "name"])})
            elif k == "bad":
                up = rng.choice([0, 0, 0, 1, 2])
                ops.append({"o": "bad", "k": rng.choice(["mix", "name", "kernel", "nomeasure"]), "up": up})
                depth = max(depth - up, 0)
            elif k == "fault":
                up = rng.choice([0, 0, 1, 2])
                ops.append({"o": "fault", "what": rng.choice(["gp", "un", "bin", "cond"]), "n": rng.randrange(1, 45),
                            "action": rng.choice(["interrupt", "memory"]), "up": up})
                depth = max(depth - up, 0)
            else:
                ops.append({"o": k, "a": rng.randrange(8), "b": rng.randrange(8)})
            ops[-1]["c"] = c
        subs = [rng.choice([0, 0, 0, 1, 2]) for _ in ms]
        return {"seed": rng.randrange(1 << 30), "env": gen.env(rng), "ops": ops, "ms": len(ms), "subs": subs}

    def signature(self, case, out):
        return [[op["o"], op.get("style"), op.get("how"), op.get("kind"), op.get("up"), op.get("m"), op.get("k")]
                for op in case["ops"]]

    def schedule(self, case):
        return [[op["o"], op.get("c"), op.get("up")] for op in case["ops"]]

    def nontrivial(self, case, out):
        return bool(out["stats"].get("check:created without a measure"))

    def go(self, case):
        s = self.s = world.stheno
        self.ops = case["ops"]
        self.pos = 0

        class Own(s.Measure):
            """A measure of the user."""

        kinds = [s.Measure, Own, type("Own", (Own,), {})]
        subs = case.get("subs") or [0]
        self.measures = [kinds[subs[j % len(subs)]]() for j in range(case["ms"])]
        self.stack = []
        self.ps = []
        self.unwind = 0
        self.raised = None
        while self.pos < len(self.ops):
            self.body()
        self.check("end", -1)

    # The program.

    def body(self):
        """Run operations until the innermost block is left. How it is left."""
        while self.pos < len(self.ops):
            op = self.ops[self.pos]
            self.pos += 1
            self.inc("steps")
            self.inc("op:" + op["o"])
            if op["o"] == "enter":
                self.enter(op, self.pos - 1)
            elif op["o"] == "leave":
                if self.stack:
                    self.inc("fault-fired:leave by " + op["how"]) if op["how"] != "end" else None
                    return op["how"]
            else:
                self.do(op, self.pos - 1)
                self.check(op["o"], self.pos - 1)
        return "end"

    def enter(self, op, i):
        m = self.measures[op["m"] % len(self.measures)]
        ms = [m]
        if op["style"] == "pair":
            ms.append(self.measures[op["m2"] % len(self.measures)])
        depth = len(self.stack)
        self.log.append([i, "enter", depth])
        escaped = False
        try:
            try:
                self.block(op["style"], ms, i)
            finally:
                del self.stack[depth:]
        except Violation:
            raise
        except BaseException as e:
            tb_clear(e)
            escaped = True
            if self.raised is None or not self.same(e):
                raise Violation("exception", f"{short(e)} comes out of the block", i)
            self.unwind -= 1
            if self.unwind > 0 and depth > 0:
                self.check("unwind", i)
                raise
            self.unwind = 0
            self.raised = None
        if not escaped and self.raised is not None:
            raise Violation("swallowed", "an exception does not leave the block", i)
        self.log.append([i, "left", len(self.stack)])
        self.check("leave", i)

    def same(self, e):
        # A generator turns `StopIteration` into `RuntimeError`.
        return e is self.raised or e.__cause__ is self.raised or e.__context__ is self.raised

    def inside(self, m, i):
        self.stack.append(m)
        self.check("enter", i)

    def block(self, style, ms, i):
        m = ms[0]
        if style == "with":
            with m as n:
                if n is not m:
                    raise Violation("as", "`with measure as m` does not give the measure", i)
                self.inside(m, i)
                self.body()
        elif style == "pair":
            with ms[0], ms[1]:
                self.stack.append(ms[0])
                self.inside(ms[1], i)
                self.body()
        elif style == "stack":
            with contextlib.ExitStack() as stack:
                stack.enter_context(m)
                self.inside(m, i)
                self.body()
        elif style == "decorated":

            @contextlib.contextmanager
            def manager():
                with m:
                    yield

            with manager():
                self.inside(m, i)
                self.body()
        elif style == "generator":

            def client():
                with m:
                    self.inside(m, i)
                    self.body()
                    yield
                    raise AssertionError("not reached")

            g = client()
            next(g)
            self.inc("fault-fired:generator abandoned inside the block")
            g.close()
        elif style == "function":

            def client():
                with m:
                    self.inside(m, i)
                    if self.body() == "return":
                        return 1
                return 2

            client()
        else:
            for _ in range(1):
                with m:
                    self.inside(m, i)
                    how = self.body()
                    if how == "break":
                        break
                    if how == "continue":
                        continue

    def fail(self, e, up, i):
        """An exception occurs; it is caught `up` blocks further out."""
        self.raised = e
        up = min(up, len(self.stack))
        if not up:
            self.raised = None
            return
        # `pair` blocks take two levels at once.
        self.unwind = up
        raise e

    def known(self):
        return self.measures

    def do(self, op, i):
        o = op["o"]
        s = self.s
        if o == "gp":
            m = None if op["m"] is None else self.measures[op["m"] % len(self.measures)]
            p = self.gp(op["k"], m, i)
            self.judge(p, m, i)
            self.ps.append(p)
        elif o == "fail":
            try:
                raise_kind(op["kind"])
            except BaseException as e:
                self.inc("fault-fired:exception in the body")
                tb_clear(e)
                exc = e
            self.fail(exc, op["up"], i)
        elif o in ("un", "bin", "cond", "apply", "cross"):
            self.derive(op, i)
        elif o == "bad":
            exc = None
            try:
                if op["k"] == "mix":
                    s.GP(s.EQ(), measure=s.Measure()) + s.GP(s.EQ(), measure=s.Measure())
                elif op["k"] == "name":
                    m = self.stack[-1] if self.stack else s.Measure()
                    s.GP(s.EQ(), measure=m, name="taken")
                    s.GP(s.EQ(), measure=m, name="taken")
                elif op["k"] == "kernel":
                    s.GP("no mean", "no kernel", "nothing")
                else:
                    s.GP().measure
            except Exception as e:
                tb_clear(e)
                exc = e
            if exc is None:
                raise Violation("norefuse", f"{op['k']} is not refused", i)
            self.inc("fault-fired:refused by the library")
            self.fail(exc, op["up"], i)
        elif o == "fault":
            exc = None
            try:
                with seams.line_tracer(op["n"], op["action"]) as tr:
                    if op["what"] == "gp":
                        s.GP(lambda x: x, s.EQ())
                    else:
                        self.derive({"o": op["what"], "a": op["n"], "b": op["n"] + 1}, i, quiet=True)
            except (seams.SimInterrupt, seams.SimMemoryError) as e:
                tb_clear(e)
                exc = e
            except Exception as e:
                # What the library makes of the failure is decided elsewhere.
                tb_clear(e)
            self.inc(("fault-fired:" if tr.fired else "fault-idle:") + op["action"])
            if exc is not None:
                self.fail(exc, op["up"], i)
        else:
            raise ValueError(o)

    def gp(self, k, m, i):
        s = self.s
        kw = {} if m is None and i % 2 else {"measure": m}
        if k == "mean":
            return s.GP(s.OneMean(), s.EQ(), **kw)
        if k == "fn":
            return s.GP(lambda x: x, s.Linear(), **kw)
        if k == "num":
            return s.GP(1, 2, **kw)
        if k == "name":
            return s.GP(s.EQ(), name=f"name{i}", **kw)
        return s.GP(s.EQ(), **kw)

    def derive(self, op, i, quiet=False):
        """Operations on processes stay in the measure of the processes, whatever the default is."""
        s = self.s
        if not self.ps:
            return
        p = self.ps[op["a"] % len(self.ps)]
        q = self.ps[op["b"] % len(self.ps)]
        o = op["o"]
        want = p.measure
        if o == "un":
            r = [lambda: 2 * p, lambda: p + 1, lambda: p.shift(1), lambda: -p][op["b"] % 4]()
        elif o == "bin":
            if q.measure is not p.measure:
                return
            r = p + q if op["a"] % 2 else p * q
        elif o == "cross":
            if q.measure is not p.measure:
                return
            r = s.cross(p, q)
        elif o == "cond":
            post = p.measure | (p(np.linspace(0, 1, 2), 0.1), np.ones(2))
            if len(self.measures) < 7:
                self.measures.append(post)
            return
        else:
            M = self.measures[op["b"] % len(self.measures)]
            if M is not p.measure:
                return
            r = M(p)
        if r.measure is not want:
            raise Violation("derived", f"the result of {o} is in another measure than its operands", i)
        self.inc("check:derived process")
        # Multi-output processes do not take part in all operations.
        if len(self.ps) < 12 and o != "cross":
            self.ps.append(r)

    def judge(self, p, explicit, i):
        m = p.measure
        if explicit is not None:
            self.inc("check:explicit measure")
            if m is not explicit:
                raise Violation("explicit", "a process is not in the explicitly given measure", i)
            return
        self.inc("check:created without a measure")
        if self.stack:
            if m is not self.stack[-1]:
                at = next((str(j) for j, n in enumerate(self.measures) if n is m), "a new one")
                raise Violation("default", f"a process is not in the innermost active measure but in {at}", i)
        else:
            if any(m is n for n in self.measures):
                raise Violation("leak", "a process outside all blocks is in an existing measure", i)
            for q in self.ps:
                if q.measure is m:
                    raise Violation("leak", "a process outside all blocks shares a measure with another", i)
            if len(self.measures) < 7:
                self.measures.append(m)

    def check(self, where, i):
        p = self.s.GP(self.s.EQ())
        try:
            self.judge(p, None, i)
        except Violation as v:
            raise Violation(v.cls, f"after {where}: {v.detail}", i)


# --------------------------------------------------------------------------------------------------


class C09(Base):
    id = "C09"
    rule = (
        "seeded histories of naming at construction, by process and by measure, over prior and posterior measures, with "
        "collisions, moves, ill-typed names and refused constructions; after every operation all look-ups are "
        "compared to two dictionaries per measure; non-trivial: at least one name was given"
    )
    NAMES = ["a", "b", "c", "f", "name with spaces", "ünï"]

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        n = rng.choice([8, 16, 30] + ([70] if tier == "thorough" else []))
        names = rng.sample(range(len(self.NAMES)), rng.choice([2, 3, 4]))
        w = dict(gp=2, un=0.6, bin=0.6, cond=0.8, apply=0.8, name=4, pname=4, bad=0.7, gc=0.3, badgp=0.4, measure=0.2)
        for k in w:
            w[k] *= rng.choice([0.3, 1, 1, 2.5])
        ops = [{"o": "measure"}, {"o": "gp", "m": 0, "n": None, "how": "explicit"}]
        for _ in range(n):
            k = gen.pick(rng, w)
            nm = rng.choice(names)
            a, b = rng.randrange(12), rng.randrange(12)
            op = {"o": k, "a": a, "b": b, "n": nm, "m": rng.randrange(6), "c": rng.randrange(2)}
            if k == "gp":
                op["n"] = rng.choice([None, nm, nm])
                op["how"] = rng.choice(["explicit", "default", "own"])
            ops.append(op)
        return {"seed": rng.randrange(1 << 30), "env": gen.env(rng), "ops": ops}

    def signature(self, case, out):
        return [[op["o"], op.get("m"), op.get("a"), op.get("n"), op.get("how")] for op in case["ops"]]

    def nontrivial(self, case, out):
        return bool(out["stats"].get("probe:names given"))

    def go(self, case):
        s = self.s = world.stheno
        self.ms, self.ps = [], []
        self.members = []  # per measure: indices of processes, in order
        self.by_name, self.by_p = [], []
        for i, op in enumerate(case["ops"]):
            self.inc("op:" + op["o"])
            self.inc("steps")
            try:
                self.do(i, op)
            except Violation:
                raise
            self.lookups(i, op)
            self.log.append([i, op["o"], [sorted(d.items()) for d in self.by_name]])

    def new_measure(self, m):
        self.ms.append(m)
        self.members.append([])
        self.by_name.append({})
        self.by_p.append({})
        return len(self.ms) - 1

    def new_p(self, p, ms):
        self.ps.append(p)
        for m in ms:
            self.members[m].append(len(self.ps) - 1)
        return len(self.ps) - 1

    def of(self, j):
        return [m for m in range(len(self.ms)) if j in self.members[m]]

    def free(self, m, j, name):
        return self.by_name[m].get(name, j) == j

    def give(self, m, j, name):
        old = self.by_p[m].pop(j, None)
        if old is not None:
            del self.by_name[m][old]
        self.by_name[m][name] = j
        self.by_p[m][j] = name
        self.inc("probe:names given")

    def attempt(self, f, allowed, what, i):
        try:
            f()
        except Exception as e:
            tb_clear(e)
            if allowed:
                raise Violation("refused", f"{what}: {short(e)}", i)
            self.inc("fault-fired:refused naming")
            return False
        if not allowed:
            raise Violation("collision", f"{what} is not refused", i)
        return True

    def do(self, i, op):
        s, o = self.s, op["o"]
        name = None if op.get("n") is None else self.NAMES[op["n"]]
        pick = lambda l, k: l[k % len(l)]  # noqa: E731
        if o == "measure":
            self.new_measure(s.Measure())
            return
        if o == "gc":
            gc.collect()
            return
        if not self.ms:
            return
        m = op["m"] % len(self.ms)
        M = self.ms[m]
        if o == "gp" or o == "badgp":
            if o == "badgp":
                # Refused because the name is taken.
                if not self.by_name[m]:
                    return
                name = pick(sorted(self.by_name[m]), op["a"])
                how = "explicit"
            else:
                how = op["how"]
            if len(self.ps) > 14:
                return
            if how == "own":
                p = s.GP(s.EQ(), name=name)
                m = self.new_measure(p.measure)
                j = self.new_p(p, [m])
                if name:
                    self.give(m, j, name)
                return
            ok = not name or name not in self.by_name[m]
            box = []

            def f():
                if how == "explicit":
                    box.append(s.GP(s.EQ(), measure=M, name=name))
                else:
                    with M:
                        box.append(s.GP(1, s.EQ(), name=name))

            if self.attempt(f, ok, f"GP(name={name!r})", i):
                j = self.new_p(box[0], [m])
                if name:
                    self.give(m, j, name)
            return
        if not self.ps:
            return
        if o in ("un", "bin") and len(self.ps) < 14:
            j, k = op["a"] % len(self.ps), op["b"] % len(self.ps)
            p, q = self.ps[j], self.ps[k]
            if o == "un":
                self.new_p(2 * p, self.of(j))
            else:
                if self.of(j)[0] != self.of(k)[0]:
                    return
                self.new_p(p + q, [m for m in self.of(j) if m in self.of(k)])
        elif o == "cond" and len(self.ms) < 6:
            if not self.members[m]:
                return
            j = pick(self.members[m], op["a"])
            p = self.ps[j]
            obs = s.Observations(p(np.linspace(0, 1, 2), 0.5), np.ones(2))
            k = self.new_measure(M | obs)
            self.members[k] = list(self.members[m])
        elif o == "apply" and len(self.ps) < 14:
            if not self.members[m]:
                return
            j = pick(self.members[m], op["a"])
            self.new_p(M(self.ps[j]), [m])
        elif o == "name":
            if not self.members[m]:
                return
            j = pick(self.members[m], op["a"])
            if self.attempt(lambda: M.name(self.ps[j], name), self.free(m, j, name), f"measure.name({name!r})", i):
                self.give(m, j, name)
        elif o == "pname":
            j = op["a"] % len(self.ps)
            p = self.ps[j]

            def f():
                p.name = name

            if self.attempt(f, all(self.free(k, j, name) for k in self.of(j)), f"p.name = {name!r}", i):
                for k in self.of(j):
                    self.give(k, j, name)
        elif o == "bad":
            if not self.members[m]:
                return
            j = pick(self.members[m], op["a"])
            p = self.ps[j]
            bad = [None, 3, ("a",), b"a", 1.5, p][op["b"] % 6]

            def f():
                if op["a"] % 2:
                    M.name(p, bad)
                else:
                    p.name = bad

            self.attempt(f, False, f"the name {bad!r:.20}", i)

    def lookups(self, i, op):
        for m, M in enumerate(self.ms):
            for name in self.NAMES:
                self.look(i, op, f"measure {m}, name {name!r}", lambda: M[name], self.by_name[m].get(name), self.ps)
            for j, p in enumerate(self.ps):
                if j in self.members[m]:
                    self.look(i, op, f"measure {m}, process {j}", lambda: M[p], self.by_p[m].get(j), None)
        for j, p in enumerate(self.ps):
            m = self.of(j)[0]
            self.look(i, op, f"process {j}", lambda: p.name, self.by_p[m].get(j), None)
        self.inc("check:look-ups")

    def look(self, i, op, what, f, want, table):
        try:
            got = f()
        except Exception as e:
            tb_clear(e)
            if want is not None:
                raise Violation("lost", f"{what}: {short(e)} instead of {want!r} after {op['o']}", i)
            return
        if want is None:
            raise Violation("stale", f"{what} is still known after {op['o']}", i)
        if table is not None:
            if got is not table[want]:
                raise Violation("wrong", f"{what} gives another process than {want} after {op['o']}", i)
        elif got != want:
            raise Violation("wrong", f"{what}: {got!r} instead of {want!r} after {op['o']}", i)


# --------------------------------------------------------------------------------------------------


class Key:
    """An index. All indices are equal; only identity tells them apart."""

    def __init__(self, j):
        self.j = j

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 7


class Token:
    def __init__(self, rule, args, n):
        self.what = (rule, args, n)

    def __eq__(self, other):
        return True

    __hash__ = None


class C11(Base):
    id = "C11"
    rule = (
        "seeded histories of setting values, adding universal, fixed-row and fixed-column rules, mutating the index sets "
        "passed in, and reading by object or identity, with builders that fail, read, set or add rules while they "
        "build, and with injected interrupts; every value is a token that tells which rule built it for which index "
        "and when, compared to a model of the rule tables; non-trivial: at least one value was built by a rule"
    )

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        matrix = rng.random() < 0.65
        nk = rng.choice([2, 3, 5])
        n = rng.choice([10, 20, 40] + ([80] if tier == "thorough" else []))
        ops = []
        w = dict(set=1, rule=2.5, mutate=1.2, read=6, intr=0.5)
        for k in w:
            w[k] *= rng.choice([0.3, 1, 1, 2.5])
        index = lambda: [rng.randrange(nk) for _ in range(2 if matrix else 1)]  # noqa: E731
        nsets = 0
        for _ in range(n):
            k = gen.pick(rng, w)
            op = {"o": k, "c": rng.randrange(3)}
            if k == "set":
                op.update(i=index(), by=rng.choice(["obj", "id", "mixed"]), none=rng.random() < 0.15)
            elif k == "rule":
                kind = rng.choice(["all", "left", "right"]) if matrix else "all"
                own = rng.random() < 0.7 or not nsets
                nsets += own
                b = {"kind": "value"}
                u = rng.random()
                if u < 0.2:
                    b = {"kind": "fail", "n": rng.choice([1, 1, 2])}
                elif u < 0.45:
                    b = {"kind": "read", "i": index()}
                elif u < 0.55:
                    b = {"kind": "set", "i": index()}
                elif u < 0.63:
                    b = {"kind": "rule", "set": sorted(rng.sample(range(nk), rng.randrange(nk + 1)))}
                elif u < 0.68:
                    b = {"kind": "none"}
                op.update(
                    kind=kind, at=rng.randrange(nk), own=own, which=rng.randrange(max(nsets, 1)),
                    type=rng.choice(["set", "set", "frozenset", "list"]),
                    set=sorted(rng.sample(range(nk), rng.randrange(nk + 1))), b=b,
                )
            elif k == "mutate":
                op.update(which=rng.randrange(max(nsets, 1)), j=rng.randrange(nk), add=rng.random() < 0.7,
                          clear=rng.random() < 0.1)
            else:
                op.update(i=index(), by=rng.choice(["obj", "id", "mixed", "single"]))
                if k == "intr":
                    op.update(n=rng.randrange(1, 25), action=rng.choice(["interrupt", "memory"]))
            ops.append(op)
        return {"seed": rng.randrange(1 << 30), "env": gen.env(rng), "ops": ops, "matrix": matrix, "keys": nk}

    def signature(self, case, out):
        return [case["matrix"], [[op["o"], op.get("i"), op.get("kind"), op.get("at"), op.get("set")]
                                 for op in case["ops"]]]

    def schedule(self, case):
        return [[op["o"], op.get("i"), op.get("which"), op.get("by")] for op in case["ops"]]

    def nontrivial(self, case, out):
        return bool(out["stats"].get("check:built"))

    def go(self, case):
        from stheno.lazy import LazyMatrix, LazyVector

        self.matrix = case["matrix"]
        self.T = LazyMatrix() if self.matrix else LazyVector()
        self.keys = [Key(j) for j in range(case["keys"])]
        self.ids = [seams.vid(k) for k in self.keys]
        self.sets, self.sets_m = [], []
        # The model.
        self.store = {}  # index -> token description, or ("set", value)
        self.rules = []  # [kind, at, frozenset, builder, id, counter]
        self.values = {}
        self.real_n = {}
        for i, op in enumerate(case["ops"]):
            self.inc("op:" + op["o"])
            self.inc("steps")
            self.do(i, op)

    # Real side.

    def real_builder(self, rid, b, kind, at):
        def build(*args):
            n = self.real_n[rid] = self.real_n.get(rid, 0) + 1
            self.trace.append((rid, args))
            if b["kind"] == "fail" and n <= b["n"]:
                raise seams.SimFault("injected: builder")
            if b["kind"] == "read":
                self.T[self.real_index(b["i"], "obj")]
            if b["kind"] == "set":
                v = ("by", rid)
                self.T[self.real_index(b["i"], "obj")] = v
            if b["kind"] == "rule" and n == 1:
                self.T.add_rule({self.ids[j] for j in b["set"]}, self.real_builder(rid + 1000, {"kind": "value"}, "all", 0))
            if b["kind"] == "none":
                return None
            return Token(rid, args, n)

        return build

    def real_index(self, idx, by):
        if not self.matrix:
            k, j = self.keys[idx[0]], self.ids[idx[0]]
            return {"obj": k, "id": j, "mixed": (k,), "single": (j,)}[by]
        (a, b), (x, y) = [self.keys[j] for j in idx], [self.ids[j] for j in idx]
        if by == "single" and idx[0] == idx[1]:
            return a
        return {"obj": (a, b), "id": (x, y), "mixed": (a, y), "single": (x, b)}[by]

    # Model side.

    class Fails(Exception):
        pass

    class NoRule(Exception):
        pass

    class Deep(Exception):
        pass

    def model_read(self, idx, depth=0):
        idx = tuple(idx)
        if idx in self.store:
            return self.store[idx]
        if depth > 20:
            raise C11.Deep()
        for r in self.ordered():
            args = self.applies(r, idx)
            if args is None:
                continue
            b = r["b"]
            r["n"] += 1
            n = r["n"]
            self.mtrace.append((r["id"], args))
            if b["kind"] == "fail" and n <= b["n"]:
                raise C11.Fails()
            if b["kind"] == "read":
                self.model_read(b["i"], depth + 1)
            if b["kind"] == "set":
                self.store[tuple(b["i"])] = ("set", ("by", r["id"]))
                if tuple(b["i"]) == idx:
                    # Ambiguous.
                    raise C11.Deep()
            if b["kind"] == "rule" and n == 1:
                self.rules.append({"kind": "all", "at": 0, "set": frozenset(b["set"]), "b": {"kind": "value"},
                                   "id": r["id"] + 1000, "n": 0})
            v = ("none",) if b["kind"] == "none" else ("token", r["id"], args, n)
            self.store[idx] = v
            return v
        raise C11.NoRule()

    def ordered(self):
        return (
            [r for r in self.rules if r["kind"] == "all"]
            + [r for r in self.rules if r["kind"] == "left"]
            + [r for r in self.rules if r["kind"] == "right"]
        )

    def applies(self, r, idx):
        ids = tuple(self.ids[j] for j in idx)
        if not self.matrix:
            return ids if idx[0] in r["set"] else None
        a, b = idx
        if r["kind"] == "all":
            return ids if a in r["set"] and b in r["set"] else None
        if r["kind"] == "left":
            return ids[1:] if a == r["at"] and b in r["set"] else None
        return ids[:1] if b == r["at"] and a in r["set"] else None

    def do(self, i, op):
        o = op["o"]
        T = self.T
        if o == "set":
            v = None if op["none"] else ("value", i)
            by = op["by"]
            T[self.real_index(op["i"], by)] = v
            self.store[tuple(op["i"])] = ("set", v)
            self.log.append([i, "set"])
        elif o == "rule":
            if op["own"] or not self.sets:
                js = list(op["set"])
                vals = [self.ids[j] for j in js]
                real = {"set": set, "frozenset": frozenset, "list": list}[op["type"]](vals)
                self.sets.append(real)
                self.sets_m.append(set(js))
                k = len(self.sets) - 1
            else:
                # The same set as for an earlier rule.
                k = op["which"] % len(self.sets)
            rid = i + 1
            build = self.real_builder(rid, op["b"], op["kind"], op["at"])
            if op["kind"] == "all":
                T.add_rule(self.sets[k], build)
            elif op["kind"] == "left":
                T.add_left_rule(self.ids[op["at"]], self.sets[k], build)
            else:
                T.add_right_rule(self.ids[op["at"]], self.sets[k], build)
            self.rules.append({"kind": op["kind"], "at": op["at"], "set": frozenset(self.sets_m[k]), "b": op["b"],
                               "id": rid, "n": 0})
        elif o == "mutate":
            if not self.sets:
                return
            k = op["which"] % len(self.sets)
            real, model = self.sets[k], self.sets_m[k]
            if isinstance(real, frozenset):
                return
            self.inc("fault-fired:index set changed after the fact")
            if op["clear"]:
                real.clear()
                model.clear()
            elif op["add"]:
                model.add(op["j"])
                getattr(real, "append" if isinstance(real, list) else "add")(self.ids[op["j"]])
            elif op["j"] in model:
                model.discard(op["j"])
                while self.ids[op["j"]] in real:
                    real.remove(self.ids[op["j"]])
        else:
            self.read(i, op)

    def snapshot(self):
        return dict(self.store), [dict(r) for r in self.rules]

    def read(self, i, op):
        idx = tuple(op["i"])
        before = self.snapshot()
        self.trace, self.mtrace = [], []
        try:
            want = self.model_read(idx)
            out = "value"
        except C11.Fails:
            out = "fails"
        except C11.NoRule:
            out = "norule"
        except C11.Deep:
            # Builders that read in a circle, or set the value that they build.
            self.store, self.rules = before
            return
        built = len(self.mtrace)
        intr = op["o"] == "intr"
        if intr:
            # Only where it is clear what can have happened: at most one simple builder.
            by = {r["id"]: r for r in self.rules}
            if built > 1 or out != "value" or any(by[r]["b"]["kind"] not in ("value", "none") for r, _ in self.mtrace):
                intr = False
        err = got = None
        try:
            if intr:
                with seams.line_tracer(op["n"], op["action"]) as tr:
                    got = self.T[self.real_index(idx, op["by"])]
            else:
                got = self.T[self.real_index(idx, op["by"])]
        except BaseException as e:
            tb_clear(e)
            err = e
        if intr:
            self.inc(("fault-fired:" if tr.fired else "fault-idle:") + op["action"])
        if intr and tr.fired:
            if err is None:
                raise Violation("swallowed", "an interrupted read returns", i)
            self.log.append([i, "interrupted"])
            # The value may have been built or not. Read again: it comes from the same rule.
            try:
                got = self.T[self.real_index(idx, op["by"])]
            except Exception as e:
                raise Violation("interrupted", f"{short(e)} when reading again after an interrupt", i)
            for r in self.rules:
                r["n"] = self.real_n.get(r["id"], 0)
            if want[0] == "token":
                n = got.what[2] if isinstance(got, Token) else 0
                want = want[:3] + (n,)
                self.store[idx] = want
            self.same(idx, got, want, i)
            self.inc("check:read again after an interrupt")
            return
        self.log.append([i, out, len(self.trace)])
        if out == "value":
            if err is not None:
                raise Violation("read", f"{short(err)} instead of {want[:2]}", i)
            self.inc("check:value")
            if built:
                self.inc("check:built")
            self.same(idx, got, want, i)
        elif out == "fails":
            self.inc("fault-fired:builder fails")
            if not isinstance(err, seams.SimFault):
                raise Violation("builder failure", f"{short(err) if err else 'a value'} instead of the failure of the builder", i)
        else:
            if err is None:
                raise Violation("norule", f"a value for index {idx} without any applicable rule", i)
            if isinstance(err, seams.SimFault) or not isinstance(err, Exception):
                raise Violation("norule", f"{short(err)} for an index without any applicable rule", i)
            self.inc("check:refused")
        if self.trace != self.mtrace:
            raise Violation("builders", f"builders called: {self.names(self.trace)} instead of {self.names(self.mtrace)}", i)

    def names(self, trace):
        back = {v: j for j, v in enumerate(self.ids)}
        return [(r, tuple(back.get(a, "?") for a in args)) for r, args in trace]

    def same(self, idx, got, want, i):
        if want[0] == "set":
            ok = got is want[1] or (isinstance(want[1], tuple) and isinstance(got, tuple) and got == want[1])
        elif want[0] == "none":
            ok = got is None
        else:
            ok = isinstance(got, Token) and got.what == want[1:]
        if not ok:
            desc = got.what[0] if isinstance(got, Token) else got
            raise Violation("value", f"index {idx}: {desc!r} instead of {want[:2]}", i)
        seen = self.values.get(idx)
        if seen is not None and seen[0] == want and seen[1] is not got and want[0] == "token":
            raise Violation("changed", f"index {idx} gives another object than before", i)
        self.values[idx] = (want, got)
