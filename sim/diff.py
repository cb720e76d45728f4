"""Properties decided by comparing the library with itself: the same program with and without something that
must not matter (other operations, faults, memory layout)."""
import json

from . import engine, gen, seams, world
from .execute import VALUE_OPS, Runner, failed, result_differs
from .props import Prop, number
from .world import Violation


def ask_again(R, stats, label, base=None, limit=None):
    """Repeat the queries of a run at its end."""
    W = R.W
    asked = 0
    for op in R.case["ops"]:
        key = op.get("key")
        if op["o"] not in VALUE_OPS or op["o"] == "ms" or key not in R.results:
            continue
        before = (base or R.results).get(key)
        if before is None or failed(before) or failed(R.results[key]):
            continue
        if any((k, i) in W.dropped or i not in W.r[k] for k, i in W.deps(op)):
            continue
        asked += 1
        try:
            res = W.run(op)
        except Exception as e:
            raise Violation(f"{label}:exc:{op['o']}", f"asking again fails: {world.short(e)}", key)
        stats["check:asked again"] = stats.get("check:asked again", 0) + 1
        d = result_differs(op, res, before)
        if d:
            raise Violation(f"{label}:{op['o']}", f"another answer when asked again at the end: {d}", key)
    R.inputs(len(R.case["ops"]), {"o": "end"})


def compare_results(a, b, ops, stats, label, keys=None):
    for op in ops:
        k = op.get("key")
        if k is None or (keys is not None and k not in keys):
            continue
        if k not in a or k not in b or op["o"] == "ms":
            if k in a and k in b and op["o"] == "ms" and a[k] != b[k] and label != "slice":
                raise Violation(f"{label}:ms", f"{a[k]} instead of {b[k]}", k)
            continue
        if op["o"] in VALUE_OPS:
            stats["check:compared"] = stats.get("check:compared", 0) + 1
        d = None
        if op["o"] in VALUE_OPS:
            d = result_differs(op, a[k], b[k])
        elif failed(a[k]) != failed(b[k]):
            d = ("fails" if failed(a[k]) else "succeeds") + ", unlike without"
        if d:
            raise Violation(f"{label}:{op['o']}", d, k)


def slice_of(ops, key):
    """The operations that an operation needs, directly or indirectly."""
    W = world.World(real=False)
    by = {}
    for op in ops:
        for d in W.defines(op):
            by.setdefault(d, op["key"])
    target = next(op for op in ops if op["key"] == key)
    need = {key}
    todo = [target]
    byk = {op["key"]: op for op in ops}
    while todo:
        for d in W.deps(todo.pop()):
            k = by.get(d)
            if k is not None and k not in need:
                need.add(k)
                todo.append(byk[k])
    return [op for op in ops if op["key"] in need]


class DiffProp(Prop):
    profiles = [{}]
    lengths = [12, 20, 35]
    track = False

    def program(self, rng, tier):
        g = gen.Gen(rng, rng.choice(self.profiles), track=self.track)
        return number(g.run(rng.choice(self.lengths if tier == "quick" else self.lengths + [60])))

    def nontrivial(self, case, out):
        return bool(out["stats"].get("check:compared"))


MIX = dict(
    w=dict(cond=1.8, pcond=0.7, obs=1, elbo=0.7, qk=2, qm=1.5, acc=2.5, fresh=2, samp=0.6, lp=0.8, cross=0.4, comb=0.3,
           ms=0, drop=0, gc=0.1),
    deep=0.5,
)


class C03(DiffProp):
    id = "C03"
    profiles = [MIX, dict(MIX, share=0.95), dict(MIX, methods=dict(vfe=1, fitc=1, dtc=1, exact=1), condobs=0.8)]
    batch = 10
    rule = (
        "seeded traces of interleaved clients sharing models, data and observation objects; every query is asked again "
        "at the end of the trace, and selected queries are compared to a run of only the operations they depend on; all "
        "caller arrays are compared to pristine copies after every operation; non-trivial: at least one comparison"
    )

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        env = gen.env(rng)
        ops = self.program(rng, tier)
        keys = [op["key"] for op in ops if op["o"] in VALUE_OPS - {"ms"}]
        rng.shuffle(keys)
        return {"seed": rng.randrange(1 << 30), "env": env, "ops": ops, "slices": keys[:4]}

    def lists(self, case):
        return [["slices"], ["ops"]]

    def run(self, case, stats):
        R = Runner(case, stats, lenient=True)
        R.W.probe_samples = False
        R.run()
        ask_again(R, stats, "changed")
        for key in case["slices"]:
            if key not in R.results or not any(op["key"] == key for op in case["ops"]):
                continue
            sub = slice_of(case["ops"], key)
            S = Runner(dict(case, ops=sub), {}, lenient=True)
            S.W.probe_samples = False
            S.run()
            stats["probe:operations left out"] = stats.get("probe:operations left out", 0) + len(case["ops"]) - len(sub)
            compare_results(R.results, S.results, case["ops"], stats, "slice", {key})
        return {"log": engine.sha(R.log)}


class C12(DiffProp):
    id = "C12"
    profiles = [
        dict(MIX, noise=dict(s=3, v=1.5, M=1, D=0.5, none=0.6)),
        dict(MIX, methods=dict(vfe=1, fitc=1, dtc=1), condobs=0.8, w=dict(MIX["w"], obs=2, elbo=2)),
        dict(MIX, w=dict(MIX["w"], gp=3, un=3, bin=3, cross=1, apply=1, qk=3, cond=1, pcond=0.4)),
    ]
    track = True
    batch = 8
    runs = {"quick": 2000, "thorough": 30000}
    cap = {"quick": 130, "thorough": 1500}
    rule = (
        "seeded traces in which attempts at some operations are hit by a fault (interrupt or memory failure at a library "
        "line, failing factorisation or solve, failing user function, failing random source) before the operation is "
        "repeated; all results are compared to the run without the attempts; non-trivial: a fault fired and a result "
        "was compared"
    )
    schedule_rule = "distinct (operation kinds, fault placement) sequences"

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        env = gen.env(rng)
        ops = self.program(rng, tier)
        cands = [op["key"] for op in ops if op["o"] not in ("x", "y", "drop", "gc", "show", "ms")]
        att = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            kinds = ["chol", "solve", "callback", "rng"]
            rng.shuffle(kinds)
            kinds.insert(rng.choice([0, 0, 1, 2, 4]), "line")
            att.append({
                "key": rng.choice(cands),
                "kinds": kinds,
                "line": rng.choice(["interrupt", "memory"]),
                "op": rng.random() < 0.15,
                "frac": round(rng.random(), 4),
                # Which line: any that was passed, any distinct one of the operation, or of the program.
                "place": rng.choice(["", "op", "any", "any"]),
                "occ": round(rng.random(), 4),
                "back": rng.choice([0, 0, 0, 1, 3]),
                "times": rng.choice([1, 1, 1, 2, 3]),
                "ghost": rng.choice([0, 0, 2, 4]),
                "gc": rng.random() < 0.3,
            })
        return {"seed": rng.randrange(1 << 30), "env": env, "ops": ops, "attempts": att}

    def lists(self, case):
        return [["attempts"], ["ops"]]

    def simpler(self, case):
        yield from super().simpler(case)
        for i, a in enumerate(case["attempts"]):
            for k, v in (("times", 1), ("ghost", 0), ("gc", False), ("back", 0), ("op", False)):
                if a[k] != v:
                    c = json.loads(json.dumps(case))
                    c["attempts"][i][k] = v
                    yield c

    def schedule(self, case):
        return [super().schedule(case), [[a["key"], a["kinds"][0], a["frac"], a["back"]] for a in case["attempts"]]]

    def run(self, case, stats):
        ops = case["ops"]
        base = Runner(dict(case, ops=ops), {}, lenient=True)
        base.to_count = {a["key"] for a in case["attempts"]}
        if any(a.get("place") == "any" for a in case["attempts"]):
            base.to_count = {op["key"] for op in ops}
        base.W.probe_samples = False
        base.run()
        out = []
        by = {op["key"]: n for n, op in enumerate(ops)}
        ins = {}
        for n, a in enumerate(case["attempts"]):
            if a.get("place") == "any" and a["kinds"][0] == "line":
                a = self.somewhere(base, by, a)
            if a["key"] not in by or a["key"] not in base.counting:
                continue
            counts = base.counting[a["key"]]
            kind = next((k for k in a["kinds"] if counts.get(k)), None)
            if kind is None:
                continue
            at = max(0, by[a["key"]] - a["back"])
            op = dict(ops[by[a["key"]]])
            for t in range(a["times"]):
                frac = (a["frac"] + 0.37 * t) % 1.0
                fault = {"kind": a["line"] if kind == "line" else kind, "n": 1 + int(frac * counts[kind])}
                if kind == "line" and a["op"]:
                    fault = dict(fault, op=True, n=1 + int(frac * counts[kind] * 8))
                elif kind == "line" and a.get("place"):
                    ps = base.places[a["key"]]
                    when = ps[sorted(ps)[int(frac * len(ps))] if t or a.get("at") not in ps else a["at"]]
                    fault["n"] = when[int(a["occ"] * len(when))]
                new = dict(op, fault=fault)
                ins.setdefault(at, []).append(new)
            if a["gc"]:
                ins[at].append({"o": "gc", "key": f"gc{n}"})
            if a["ghost"]:
                ins[at].append({"o": "ghost", "n": a["ghost"], "what": ["gp", "member", "model"][n % 3],
                                "m": op.get("m"), "key": f"gh{n}"})
        for n, op in enumerate(ops):
            out += ins.get(n, [])
            out.append(op)
        R = Runner(dict(case, ops=out), stats, lenient=True)
        R.W.probe_samples = False
        R.run()
        compare_results(R.results, base.results, ops, stats, "after")
        ask_again(R, stats, "later", base.results)
        return {"log": engine.sha([base.log, R.log])}

    def somewhere(self, base, by, a):
        """Aim at any line of the library that the program passes, in an operation that passes it."""
        lines = sorted({p for k, ps in base.places.items() if k in by for p in ps})
        if not lines:
            return dict(a, place="")
        line = lines[int(a["frac"] * len(lines))]
        keys = [k for k in by if line in base.places.get(k, ())]
        return dict(a, key=keys[int(a["occ"] * 7919) % len(keys)], at=line)

    def nontrivial(self, case, out):
        return super().nontrivial(case, out) and any(k.startswith("fault-fired") for k in out["stats"])


class C14(DiffProp):
    id = "C14"
    profiles = [
        dict(MIX, w=dict(MIX["w"], ms=1.5)),
        dict(MIX, w=dict(MIX["w"], ms=2, gp=2.5, un=2.5, bin=3, cond=2.5, apply=1, measure=0.6), maxn=2),
        dict(MIX, methods=dict(vfe=1, fitc=1, dtc=1, exact=1), condobs=0.8, w=dict(MIX["w"], ms=1)),
        dict(MIX, w=dict(MIX["w"], ms=0.5, gp=1.2, un=1.5, bin=2, cross=1.5, comb=1, cond=3, qk=1, qm=1, acc=1), maxn=2),
    ]
    batch = 8
    rule = (
        "seeded programs, each run under several simulated address layouts, with garbage collections at arbitrary "
        "library lines, unrelated activity in between, and references dropped after their last use; the results are "
        "compared to a plain run; non-trivial: at least one comparison"
    )
    schedule_rule = "distinct (program, layout, collection and reference-dropping schedule)"

    def program(self, rng, tier):
        out = []
        for op in super().program(rng, tier):
            out.append(op)
            p = op["np"] if op["o"] == "comb" else op.get("id")
            if op["o"] in ("bin", "un", "cross", "comb") and rng.random() < (0.8 if op["o"] in ("cross", "comb") else 0.3):
                out.append({"o": "ms", "p": p, "c": op["c"]})
        return number(out)

    def gen(self, seed, i, tier):
        rng = gen.seeded(self.id, seed, i)
        ops = self.program(rng, tier)
        keys = [op["key"] for op in ops]
        variants = []
        for ids in rng.sample(["desc", "lifo", "lifo", "rand", "randreuse", "randreuse"], 2):
            variants.append({
                "env": gen.env(rng, ids),
                "gcs": [[rng.choice(keys), round(rng.random(), 4)] for _ in range(rng.choice([0, 2, 6]))],
                "ghosts": [
                    [rng.choice(keys), rng.choice(["model", "measure", "gp", "member"]), rng.choice([1, 3]),
                     rng.random() < 0.6]
                    for _ in range(rng.choice([0, 2, 5]))
                ],
                "drops": rng.random() < 0.7,
            })
        return {"seed": rng.randrange(1 << 30), "ops": ops, "variants": variants}

    def lists(self, case):
        return [["variants"]] + [["variants", n, k] for n in range(len(case["variants"])) for k in ("gcs", "ghosts")] + [
            ["ops"]
        ]

    def simpler(self, case):
        yield from super().simpler(case)
        for n, v in enumerate(case["variants"]):
            if v["drops"]:
                c = json.loads(json.dumps(case))
                c["variants"][n]["drops"] = False
                yield c

    def schedule(self, case):
        return [super().schedule(case), case["variants"]]

    def run(self, case, stats):
        ops = case["ops"]
        base = Runner(dict(case, env={"ids": "mono"}), {}, lenient=True)
        base.to_count = {k for v in case["variants"] for k, _ in v["gcs"]}
        base.W.probe_samples = False
        base.run()
        log = [base.log]
        W = world.World(real=False)
        last = {}
        for op in ops:
            for d in W.deps(op) + W.defines(op):
                last[d] = op["key"]
        for v in case["variants"]:
            gcs = {k: f for k, f in v["gcs"]}
            out = []
            for op in ops:
                for g, (k, what, n, keep) in enumerate(v["ghosts"]):
                    if k == op["key"]:
                        m = next((i for t, i in W.deps(op) if t == "M"), None)
                        out.append({"o": "ghost", "what": what, "n": n, "m": m, "drop": not keep, "key": f"g{g}"})
                new = op
                c = base.counting.get(op["key"])
                if op["key"] in gcs and c and c.get("line"):
                    new = dict(op, fault={"kind": "gc", "n": 1 + int(gcs[op["key"]] * c["line"])})
                out.append(new)
                if v["drops"]:
                    for (kind, i), k in last.items():
                        if k == op["key"] and kind in ("P", "D", "M", "O", "x", "y"):
                            out.append({"o": "drop", "kind": kind, "i": i, "key": f"d{kind}{i}"})
                            stats["fault-fired:reference dropped"] = stats.get("fault-fired:reference dropped", 0) + 1
            R = Runner(dict(case, ops=out, env=v["env"]), stats, lenient=True)
            R.W.probe_samples = False
            R.run()
            stats["probe:addresses reused"] = stats.get("probe:addresses reused", 0) + seams.SPACE.reused
            drops = v["drops"]
            compare_results(R.results, base.results, [o for o in ops if not (drops and o["o"] == "ms")], stats, "layout")
            log.append(R.log)
        return {"log": engine.sha(log)}
