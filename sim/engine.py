"""Seeded search: run many simulated executions in parallel, minimise and report what fails.

Every execution runs in its own forked process, so nothing carries over from one to the next, a hanging one
can be ended, and the same case gives the same execution in a fresh interpreter.
"""
import gc
import hashlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

from . import boot

RUN_TIMEOUT = float(os.environ.get("SIM_RUN_TIMEOUT", "180"))


class Outcome(dict):
    """`kind`: ok, violation, error, or hang."""

    @property
    def kind(self):
        return self["kind"]


def sha(v):
    return hashlib.sha256(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:16]


def execute(prop, case):
    """Run one case in this process."""
    from .world import Violation

    stats = {}
    try:
        info = prop.run(case, stats) or {}
        out = Outcome(kind="ok")
        out.update(info)
    except Violation as v:
        out = Outcome(kind="violation", cls=v.cls, detail=str(v.detail)[:600], op=v.op)
    except Exception as e:
        out = Outcome(kind="error", detail="".join(traceback.format_exception(e))[-3000:])
    out["stats"] = stats
    return out


def forked(fn, timeout):
    """Run `fn` in a forked child: its JSON result, or None if it does not finish."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            try:
                traceback.print_exc()
                sys.stderr.flush()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if timed_out:
        return "timeout"
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return None


def run_case(prop, case, timeout=None):
    """Run one case in a forked process."""
    res = forked(lambda: execute(prop, case), timeout or RUN_TIMEOUT)
    if res == "timeout":
        return Outcome(kind="hang", cls="hang", detail=f"no end after {timeout or RUN_TIMEOUT:.0f} s", stats={})
    if res is None:
        return Outcome(kind="error", detail="the simulated process died", stats={})
    return Outcome(res)


def run_seed(prop, seed, i, tier):
    def fn():
        case = prop.gen(seed, i, tier)
        out = execute(prop, case)
        out["sig"] = sha(prop.signature(case, out))
        out["sched"] = sha(prop.schedule(case))
        out["trivial"] = not prop.nontrivial(case, out)
        out["len"] = len(case.get("ops", []))
        if i < 3:
            out["case"] = case
        return out

    res = forked(fn, RUN_TIMEOUT)
    if res == "timeout":
        res = dict(kind="hang", cls="hang", detail=f"no end after {RUN_TIMEOUT:.0f} s", stats={})
    if res is None:
        res = dict(kind="error", detail="the simulated process died", stats={})
    res["i"] = i
    return res


def case_of(prop, seed, i, tier):
    return forked(lambda: prop.gen(seed, i, tier), 60)


def warm(prop):
    """Fill the caches of the dispatch library, so that forked processes start warm."""
    prop.prepare()
    for j in range(prop.warmup):
        try:
            prop.run(prop.gen(999983, j, "quick"), {})
        except Exception:
            pass
    from . import seams

    seams.reset({}, 0)
    gc.collect()
    gc.freeze()


def batch(prop, seed, idx, tier, workers, deadline):
    """Run the seeds `idx` on `workers` processes. Which process runs a seed does not matter."""
    pipes = []
    for w in range(workers):
        mine = idx[w::workers]
        if not mine:
            continue
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(wr, "w") as f:
                    for i in mine:
                        if time.monotonic() > deadline:
                            break
                        f.write(json.dumps(run_seed(prop, seed, i, tier)) + "\n")
                        f.flush()
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append((r, pid))
    out = []
    bufs = {r: b"" for r, _ in pipes}
    open_ = set(bufs)
    while open_:
        ready, _, _ = select.select(list(open_), [], [])
        for r in ready:
            b = os.read(r, 1 << 16)
            if not b:
                open_.discard(r)
                os.close(r)
            else:
                bufs[r] += b
    for r, pid in pipes:
        os.waitpid(pid, 0)
        for line in bufs[r].splitlines():
            out.append(json.loads(line))
    out.sort(key=lambda o: o["i"])
    return out


# --------------------------------------------------------------------------------------------------
# Minimisation.


def ddmin(items, test, deadline):
    n = 2
    while len(items) > 1 and time.monotonic() < deadline:
        k = max(1, len(items) // n)
        found = False
        i = len(items) - k
        # From the back: later operations are removed more easily.
        starts = list(range(0, len(items), k))[::-1]
        for i in starts:
            if time.monotonic() > deadline:
                return items
            t = items[:i] + items[i + k :]
            if test(t):
                items = t
                n = max(n - 1, 2)
                found = True
                break
        if not found:
            if k == 1:
                break
            n = min(len(items), n * 2)
    if len(items) == 1 and test([]):
        return []
    return items


def minimise(prop, case, cls, budget=60, timeout=None):
    deadline = time.monotonic() + budget
    count = [0]

    def fails(c):
        count[0] += 1
        out = run_case(prop, c, timeout)
        return out.kind in ("violation", "hang") and out.get("cls") == cls

    changed = True
    rounds = 0
    while changed and rounds < 3 and time.monotonic() < deadline:
        changed = False
        rounds += 1
        for path in prop.lists(case):
            try:
                cur = get(case, path)
            except (IndexError, KeyError):
                continue
            if not cur:
                continue
            new = ddmin(cur, lambda t: fails(put(case, path, t)), deadline)
            if len(new) < len(cur):
                case = put(case, path, new)
                changed = True
        for cand in prop.simpler(case):
            if time.monotonic() > deadline:
                break
            if cand != case and fails(cand):
                case = cand
                changed = True
                break
    return case, count[0]


def get(case, path):
    for k in path:
        case = case[k]
    return case


def put(case, path, v):
    case = json.loads(json.dumps(case))
    c = case
    for k in path[:-1]:
        c = c[k]
    c[path[-1]] = v
    return case


# --------------------------------------------------------------------------------------------------


def audit(prop, seed, tier, idx):
    """Run seeds once more in a fresh interpreter with another hash seed: the event logs must agree."""
    cmd = [
        sys.executable, os.path.join(boot.VERIF, "check.py"), prop.id, "--logs", ",".join(map(str, idx)),
        "--seed", str(seed), "--tier", tier,
    ]
    env = dict(os.environ, PYTHONHASHSEED=str(1 + (seed * 31 + 7) % 4294967))
    try:
        p = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=240)
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception as e:
        return {"error": str(e)[:200]}


def logs(prop, seed, tier, idx):
    out = {}
    for i in idx:
        res = run_seed(prop, seed, i, tier)
        out[str(i)] = [res["kind"], res.get("log"), res.get("sig")]
    return out


def save_replay(prop, seed, i, tier, case, out):
    os.makedirs(os.path.join(boot.VERIF, "replays"), exist_ok=True)
    path = os.path.join(boot.VERIF, "replays", f"{prop.id}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop.id,
                "seed": seed,
                "run": i,
                "tier": tier,
                "class": out["cls"],
                "detail": out["detail"],
                "at": out.get("op"),
                "case": case,
            },
            f,
            indent=1,
        )
    return path


def replay_file(prop, path):
    with open(path) as f:
        rec = json.load(f)
    out = run_case(prop, rec["case"])
    return rec, out


def known_findings(prop):
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        rec = json.load(f)
    return [e for e in rec["findings"] if e["property"] == prop.id]


def check(prop, seed, tier, workers=None, runs=None, cap=None):
    """Returns the exit code."""
    t0 = time.monotonic()
    workers = workers or min(8, max(2, os.cpu_count() or 2))
    runs = runs or prop.runs[tier]
    cap = cap or prop.cap[tier]
    warm(prop)
    # Known findings first.
    findings = 0
    violations = []
    for e in known_findings(prop):
        out = run_case(prop, e["case"])
        if out.kind == "violation" and out["cls"] in e["classes"]:
            findings += 1
            print(f"KNOWN-FINDING: property={prop.id} {e['what']}", flush=True)
        elif out.kind in ("violation", "hang"):
            violations.append((-1, e["case"], out))
        elif out.kind == "error":
            print(out["detail"], file=sys.stderr)
            return 2
    deadline = t0 + cap
    results = []
    errors = []
    nb = workers * prop.batch
    i = 0
    while i < runs and time.monotonic() < deadline and not violations:
        idx = list(range(i, min(i + nb, runs)))
        res = batch(prop, seed, idx, tier, workers, deadline)
        results += res
        i += len(idx)
        bad = [r for r in res if r["kind"] in ("violation", "hang")]
        errors += [r for r in res if r["kind"] == "error"]
        if len(errors) > 3 and not bad:
            break
        if bad:
            seen = set()
            # The cheapest representative of each class.
            for r in sorted(bad, key=lambda r: (r["kind"] == "hang", r["i"])):
                if r["cls"] in seen or len(seen) >= 2:
                    continue
                seen.add(r["cls"])
                violations.append((r["i"], case_of(prop, seed, r["i"], tier), Outcome(r)))
    search_s = time.monotonic() - t0
    reports = []
    for j, case, out in violations:
        out, path, ok = report(prop, seed, tier, j, case, out)
        reports.append((out, path, ok))
    confirmed = [r for r in reports if r[2]]
    aud = None
    if not violations:
        idx = [r["i"] for r in results[: prop.audits]]
        fresh = audit(prop, seed, tier, idx) if idx else {}
        here = {str(r["i"]): [r["kind"], r.get("log"), r.get("sig")] for r in results[: prop.audits]}
        same = sum(1 for k in here if fresh.get(k) == here[k])
        aud = {"runs_repeated_in_fresh_interpreter": len(here), "identical_event_logs": same}
        if "error" in fresh:
            aud["error"] = fresh["error"]
    evidence(prop, seed, tier, results, t0, search_s, workers, runs, aud, confirmed, findings, errors)
    for out, path, ok in confirmed:
        print(f"violated: {out['cls']}: {out['detail']}")
        print(f"VIOLATION property={prop.id} replay={path}", flush=True)
    if confirmed:
        return 1
    if violations:
        print("a violation was found that does not replay: the simulation is not deterministic", file=sys.stderr)
        return 2
    if errors:
        print(f"{len(errors)} runs ended with an error of the harness", file=sys.stderr)
        print(errors[0]["detail"], file=sys.stderr)
        return 2
    if not results:
        print("nothing was run", file=sys.stderr)
        return 2
    print(
        f"{prop.id}: held in {len(results)} runs ({time.monotonic() - t0:.0f} s)"
        + (f", {findings} known findings" if findings else "")
    )
    return 0


def report(prop, seed, tier, i, case, out):
    hang = out.kind == "hang"
    if not hang:
        small, tried = minimise(prop, case, out["cls"], budget=prop.minimise_s)
        again = run_case(prop, small)
        if again.kind == "violation" and again["cls"] == out["cls"]:
            case, out = small, again
    path = save_replay(prop, seed, i, tier, case, out)
    # Replay in a fresh interpreter.
    cmd = [sys.executable, os.path.join(boot.VERIF, "check.py"), prop.id, "--replay", path]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=RUN_TIMEOUT * 2 + 60)
        ok = p.returncode == 1 and f"VIOLATION property={prop.id}" in p.stdout
        if not ok:
            print(p.stdout[-1500:], p.stderr[-1500:], file=sys.stderr)
    except subprocess.TimeoutExpired:
        ok = hang
    return out, path, ok


def evidence(prop, seed, tier, results, t0, search_s, workers, runs, aud, confirmed, findings, errors):
    stats = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            if k.startswith("max:"):
                stats[k] = max(stats.get(k, 0), v)
            else:
                stats[k] = stats.get(k, 0) + v
    nontrivial = {r["sig"] for r in results if r.get("sig") and not r.get("trivial")}
    group = lambda p: {k[len(p):]: v for k, v in sorted(stats.items()) if k.startswith(p)}  # noqa: E731
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(nontrivial),
        "rule": prop.rule,
        "samples": [r["case"] for r in results if r.get("case")][:2],
        "planned_runs": runs,
        "runs_per_hour": round(3600 * len(results) / max(search_s, 1e-6)),
        "seeds": "every run has a seed of its own: evaluations is the number of simulated runs, and runs_per_hour that of seeds",
        "worker_processes": workers,
        "simulated_steps": stats.get("steps", 0),
        "simulated_time": "the library has no clock; simulated time is counted in executed operations (simulated_steps)",
        "operations": group("op:"),
        "oracle_checks": group("check:"),
        "faults_fired": group("fault-fired:"),
        "faults_armed_but_not_reached": group("fault-idle:"),
        "distinct_interleavings": len({r.get("sched") for r in results if r.get("sched")}),
        "interleaving_measure": prop.schedule_rule,
        "probes": group("probe:"),
        "extremes": group("max:"),
        "determinism_audit": aud,
        "real_components": prop.real,
        "stubbed_components": prop.stub,
        "known_findings_reproduced": findings,
        "harness_errors": len(errors),
    }
    rec = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{prop.id}.json"), "w") as f:
        json.dump(rec, f, indent=1, default=str)
