"""C13: simulated threads on shared models."""
import gc
import json

from . import boot, engine, gen, seams, simthread, world
from .diff import MIX, DiffProp, ask_again, compare_results
from .execute import VALUE_OPS, Runner, tb_clear
from .props import number
from .world import Violation


class ThreadGen:
    """Programs for threads: they read shared objects and extend only measures of their own."""

    def __init__(self, rng, profile):
        self.g = g = gen.Gen(rng, profile)
        self.rng = rng
        g.clients = 1

    def setup(self, n):
        g = self.g
        g.run(n)
        for _ in range(20):
            if len(g.W.fO) >= 1 and any(M.depth > 0 for M in g.W.fM.values()):
                break
            self.rng.choice([g.g_obs, g.g_cond])()
        return len(g.ops)

    def meet(self):
        """Condition several measures on the same observations: these are then shared by several threads. Give these
        measures, if that succeeds."""
        g, rng = self.g, self.rng
        for _ in range(12):
            o = g.any("O", 0.6)
            if o is None:
                g.g_obs()
                continue
            ms = g._obs_measures(o)
            if not ms:
                return []
            if len(ms) < 2:
                # Another measure of the same processes.
                g.g_cond(rng.choice(ms))
                continue
            out = []
            for m in rng.sample(ms, min(len(ms), rng.choice([2, 2, 3]))):
                mark = len(g.ops)
                i = g.id("M")
                g.emit({"o": "cond", "id": i, "m": m, "obs": o})
                if len(g.ops) > mark and i in g.W.fM:
                    out.append(i)
            return out if len(out) > 1 else []
        return []

    def meet_at(self):
        """A distribution that nobody has asked anything yet, or None."""
        g, rng = self.g, self.rng
        for _ in range(12):
            p = g.any("P", 0.5, lambda p: g.W.fM[g.W.primary(p)].depth > 0) if rng.random() < 0.4 else None
            if g.g_fdd(p) and g.ops[-1]["o"] == "fdd" and (g.ops[-1].get("noise") or rng.random() < 0.2):
                return g.ops[-1]["id"]
        return None

    def ask_of(self, n, d):
        """Questions to one distribution."""
        g, rng = self.g, self.rng
        mark = len(g.ops)
        size = len(g.W.fD[d].noise)
        for _ in range(6 * n):
            if len(g.ops) - mark >= n:
                break
            k = rng.choice(["acc", "acc", "acc", "samp"])
            if k == "acc":
                y = g.y_for(size)
                ks = [rng.choice(world.ACC) for _ in range(rng.choice([1, 1, 2, 3]))]
                g.emit({"o": "acc", "d": d, "y": y, "ks": ks})
            else:
                op = {"o": "samp", "ds": [d], "seed": rng.randrange(10**6), "n": rng.choice([1, 2]), "how": "state"}
                if rng.random() < 0.6:
                    op["noise"] = rng.choice([0.1, 0.5])
                g.emit(op)
        out = g.ops[mark:]
        del g.ops[mark:]
        for op in out[::-1]:
            g.W.undo_ref(op)
        return out

    def ask(self, n, m):
        """Queries of processes under one measure."""
        g, rng = self.g, self.rng
        mark = len(g.ops)
        pm = g.pm
        ps = [p for p in g.W.fP if m in g.W.fP[p]]
        try:
            g.pm = lambda *a, **kw: (rng.choice(ps), m)
            for _ in range(4 * n):
                if len(g.ops) - mark >= n:
                    break
                getattr(g, rng.choice(["g_qm", "g_qk", "g_fresh"]))()
        finally:
            g.pm = pm
        out = g.ops[mark:]
        del g.ops[mark:]
        for op in out[::-1]:
            g.W.undo_ref(op)
        return [op for op in out if self.allowed(op, set(g.W.fM))]

    def allowed(self, op, shared_measures):
        o = op["o"]
        W = self.g.W
        if o in ("drop", "gc", "measure", "show"):
            return o == "show"
        if W.hidden(op):
            # Several pairs are combined in the shared measure.
            ms = {W.primary(W.fD[d].p) for d, _ in op.get("items") or []}
            if ms & shared_measures:
                return False
        if o == "lp":
            if op["form"] == "m":
                return False
            return True
        if o == "samp":
            return not op.get("m") and op.get("how") != "global"
        if o in ("cond", "pcond", "obs", "qm", "qk", "acc", "elbo", "fdd", "x", "y", "ms"):
            return o != "ms"
        if o == "fresh":
            return op["m"] not in shared_measures or W.primary(op["p"]) == op["m"]
        if o in ("gp",):
            return op.get("nm") or op["m"] not in shared_measures
        if o in ("un", "apply", "mfdd"):
            return False
        if o in ("bin", "cross", "comb"):
            return False
        return False

    def thread(self, n, shared_measures, start):
        """Generate operations; remember only those that are allowed."""
        g, rng = self.g, self.rng
        g.w = dict(g.w)
        g.w.update(dict(gp=0.3, un=0, bin=0, apply=0, cross=0, comb=0, mfdd=0, measure=0, ms=0, drop=0, gc=0, show=0.3,
                        qm=2, qk=3, acc=4, fresh=2, lp=1, elbo=2, samp=1, cond=1.5, pcond=1, obs=0.6, fdd=1))
        out = []
        tries = 0
        while len(out) < n and tries < 10 * n:
            tries += 1
            mark = len(g.ops)
            k = gen.pick(rng, g.w)
            getattr(g, "g_" + k)()
            new = g.ops[mark:]
            if all(self.allowed(op, shared_measures) for op in new):
                out += new
            else:
                for op in new[::-1]:
                    g.W.undo_ref(op)
            del g.ops[mark:]
        # Another thread does not see what this one made.
        for op in out[::-1]:
            g.W.undo_ref(op)
        return out


class Turns:
    """The schedule: after `gap` more yield points, thread `t` runs.

    Args:
        novel: Also preempt where a line is reached for the first time in the run, for a seeded choice of lines.
    """

    def __init__(self, turns, n, novel=None):
        self.novel = novel
        self.seen = set()
        self.place = None
        self.hold = 0
        self.turns = list(turns)
        self.n = n
        self.left = self.turns[0][0] if self.turns else None

    def __call__(self, step, current, runnable):
        if current is None or current not in runnable:
            # A start, or a thread has ended: the next one in order.
            return runnable[0] if step == 0 else runnable[(-step) % len(runnable)]
        if self.hold:
            self.hold -= 1
            return current
        if self.novel and self.place not in self.seen:
            self.seen.add(self.place)
            r = gen.seeded("novel", self.novel["seed"], self.place)
            cands = [t for t in runnable if t != current]
            if cands and r.random() < self.novel["q"]:
                self.hold = int(2 ** r.uniform(0, self.novel["hold"]))
                return r.choice(cands)
        if self.left is None:
            return current
        self.left -= 1
        if self.left > 0:
            return current
        _, t = self.turns.pop(0)
        self.left = self.turns[0][0] if self.turns else None
        cands = [r for r in runnable if r != current]
        if not cands:
            return current
        return cands[t % len(cands)]


class C13(DiffProp):
    id = "C13"
    profiles = [
        dict(MIX, w=dict(MIX["w"], acc=0.2, qk=0.2, qm=0.2, fresh=0.2, lp=0.1, elbo=0.1, samp=0, obs=2, cond=1.5, fdd=3)),
        dict(MIX, w=dict(MIX["w"], acc=0.1, qk=0.1, qm=0.1, fresh=0.1, lp=0.1, elbo=0.1, samp=0, obs=3, cond=1.5, fdd=3),
             methods=dict(exact=1, vfe=1, fitc=1, dtc=1), condobs=0.9),
    ]
    runs = {"quick": 3000, "thorough": 30000}
    cap = {"quick": 130, "thorough": 1500}
    rule = (
        "seeded programs of two or three threads over shared models, run under a seeded preemption schedule with "
        "switches at library lines (or bytecodes); results, and the answers of all queries asked again afterwards, are "
        "compared to running the same programs one after the other; non-trivial: at least one preemption inside the "
        "library and one comparison"
    )
    schedule_rule = "distinct sequences (yield point, thread) of preemptions that took place"

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        env = gen.env(rng)
        tg = ThreadGen(rng, rng.choice(self.profiles))
        meet = rng.random() < 0.3
        tg.setup(rng.choice([4, 6, 10] if meet else [6, 10, 16, 24]))
        met = tg.meet() if meet else []
        # Or everybody asks one distribution.
        at = tg.meet_at() if not meet and rng.random() < 0.35 else None
        number(tg.g.ops)
        setup = list(tg.g.ops)
        shared = set(tg.g.W.fM)
        n = rng.choice([2, 2, 3])
        threads = []
        for t in range(n):
            if met:
                # Everybody asks through the same observations, mostly under measures of their own.
                ops = rename(tg.ask(rng.choice([1, 1, 2, 3]), met[t % len(met)]), t)
            elif at and rng.random() < 0.9:
                ops = rename(tg.ask_of(rng.choice([1, 2, 3]), at), t)
            elif threads and rng.random() < 0.35:
                # The same program: everybody is the first to ask.
                ops = rename(threads[0], t)
            else:
                ops = rename(tg.thread(rng.choice([1, 2, 3, 5]), shared, len(setup)), t)
            threads.append(ops)
        for t, ops in enumerate(threads):
            for j, op in enumerate(ops):
                op["key"] = f"t{t}.{j}"
        turns = []
        style = rng.choice(["few", "few", "dense", "mixed"] if not at else ["few", "dense", "dense", "mixed"])
        for _ in range({"few": rng.randint(1, 5), "dense": rng.randint(40, 200), "mixed": rng.randint(5, 40)}[style]):
            gap = int(2 ** rng.uniform(0, 4 if style == "dense" else 9))
            turns.append([max(1, gap), rng.randrange(6)])
        novel = None
        if rng.random() < (0.6 if at else 0.4):
            novel = {"seed": rng.randrange(1 << 20), "q": rng.choice([0.02, 0.05, 0.1, 0.2]), "hold": rng.choice([6, 9, 11])}
            turns = turns[: rng.choice([0, 0, 1, 3])]
        case = {
            "seed": rng.randrange(1 << 30), "env": env, "ops": setup, "novel": novel, "threads": threads, "turns": turns,
            "opcodes": rng.random() < 0.2,
            # Thread, after how many of its own yield points, what.
            "hits": [
                [rng.randrange(n), int(2 ** rng.uniform(0, 10)), rng.choice(["interrupt", "memory"])]
                for _ in range(rng.choice([0, 0, 1, 2]))
            ],
        }
        if case["hits"]:
            # The interpreter (CPython 3.12) can crash if an exception is raised at a traced bytecode while another
            # thread is traced too.
            case["opcodes"] = False
        return case

    def lists(self, case):
        return [["hits"], ["turns"]] + [["threads", t] for t in range(len(case["threads"]))] + [["ops"]]

    def simpler(self, case):
        yield from super().simpler(case)
        if case["opcodes"]:
            yield dict(case, opcodes=False)
        if case.get("novel"):
            yield dict(case, novel=None)
        for n, (gap, t) in enumerate(case["turns"][:8]):
            for g in (1, gap // 2):
                if 0 < g < gap:
                    c = json.loads(json.dumps(case))
                    c["turns"][n][0] = g
                    yield c

    def signature(self, case, out):
        return [super().signature(case, out), [[op["o"] for op in ops] for ops in case["threads"]], out.get("switches")]

    def schedule(self, case):
        return [[[op["o"] for op in ops] for ops in case["threads"]], case["turns"], case.get("novel")]

    def world(self, case, ops, stats):
        R = Runner(dict(case, ops=ops), stats, lenient=True)
        R.W.probe_samples = False
        return R

    def run(self, case, stats):
        # One after the other.
        seq = self.world(case, case["ops"] + [op for ops in case["threads"] for op in ops], {})
        seq.run()
        # Interleaved. The reference is in step beforehand; only library calls run in the threads.
        R = self.world(case, case["ops"], stats)
        R.run()
        W = R.W
        plans = []
        for t, ops in enumerate(case["threads"]):
            plan = []
            for op in ops:
                try:
                    R.ref(op)
                except world.Skip:
                    continue
                plan.append(op)
                stats["op:" + op["o"]] = stats.get("op:" + op["o"], 0) + 1
            plans.append(plan)
        out = [dict() for _ in plans]

        hits = {}
        for t, n, kind in case["hits"]:
            hits.setdefault(t, {})[n] = kind
        passed = [0] * len(plans)
        hit = set()

        def hook(t, frame):
            passed[t] += 1
            if turns.novel:
                turns.place = f"{frame.f_code.co_filename[len(boot.REPO):]}:{frame.f_lineno}"
            kind = hits.get(t, {}).get(passed[t])
            if kind:
                stats["fault-fired:" + kind] = stats.get("fault-fired:" + kind, 0) + 1
                raise (seams.SimInterrupt if kind == "interrupt" else seams.SimMemoryError)("injected")

        def program(t):
            def go():
                for op in plans[t]:
                    sched.rearm()
                    if any(i not in W.r[kind] for kind, i in W.deps(op)):
                        continue
                    try:
                        res = W.run(op)
                    except world.Skip:
                        continue
                    except seams.INJECTED as e:
                        tb_clear(e)
                        hit.add(op["key"])
                        for kind, j in W.defines(op):
                            W.r[kind].pop(j, None)
                        continue
                    except Exception as e:
                        tb_clear(e)
                        out[t][op["key"]] = ["exc"]
                        out[t][op["key"], "why"] = world.short(e)
                        continue
                    out[t][op["key"]] = res if op["o"] in VALUE_OPS else ["ok"]
            return go

        turns = Turns(case["turns"], len(plans), case.get("novel"))
        sched = simthread.Scheduler(
            [program(t) for t in range(len(plans))], turns, boot.REPO + "/stheno/", case["opcodes"]
        )
        sched.hook = hook
        gc.disable()
        try:
            sched.run()
        finally:
            gc.enable()
        if sched.deadlock:
            raise Violation("deadlock", "all threads wait for locks")
        for e in sched.errors:
            if e is not None:
                raise Violation("thread", f"a thread ends with {world.short(e)}")
        stats["steps"] = stats.get("steps", 0) + sched.step
        pre = [s for s in sched.switches if s[0] > 0]
        stats["fault-fired:preemption inside the library"] = len(pre)
        stats["max:yield points in one run"] = sched.step
        R.results.update({k: v for o in out for k, v in o.items() if not isinstance(k, tuple)})
        whys = {k[0]: v for o in out for k, v in o.items() if isinstance(k, tuple)}
        ops = [op for p in plans for op in p if op["key"] not in hit]
        try:
            compare_results(R.results, seq.results, ops, stats, "threads")
        except Violation as v:
            if v.op in whys:
                v.detail += " (" + whys[v.op] + ")"
            raise
        R.case = dict(case, ops=case["ops"] + ops)
        ask_again(R, stats, "afterwards", seq.results)
        return {"log": engine.sha([seq.log, R.log, sched.switches]), "switches": sched.switches[:200]}

    def nontrivial(self, case, out):
        return super().nontrivial(case, out) and bool(out["stats"].get("fault-fired:preemption inside the library"))


def rename(ops, t):
    """Give the objects that a program makes names of its own."""
    ops = json.loads(json.dumps(ops))
    W = world.World(real=False)
    names = {}
    for op in ops:
        for kind, i in W.defines(op):
            base = i.split("@")[0]
            names[kind, i] = f"{base}@{t}"
    for op in ops:
        new = {}
        for k, kind in W.KEYS.items():
            if op.get(k) is not None and (kind, op[k]) in names:
                new[k] = names[kind, op[k]]
        for k, kind in W.LKEYS.items():
            if op.get(k):
                new[k] = [names.get((kind, i), i) for i in op[k]]
        if op.get("items"):
            new["items"] = [[names.get(("D", d), d), names.get(("y", y), y)] for d, y in op["items"]]
        if W.DEF.get(op["o"]):
            new["id"] = names[W.DEF[op["o"]], op["id"]]
        if op.get("nm"):
            new["nm"] = names["M", op["nm"]]
        if op.get("np"):
            new["np"] = names["P", op["np"]]
        op.update(new)
    return ops
