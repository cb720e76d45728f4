#!/opt/venv/bin/python
"""Decide a property by seeded search over simulated executions.

    check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--cap SECONDS] [--workers N]
    check.py C01 --replay FILE       replay a recorded violation
    check.py C01 --logs 0,1,2        print event-log digests (determinism audit)
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") is None:
    # String hashes are one more source of nondeterminism.
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe] + sys.argv, env)
sys.path.insert(0, HERE)

import argparse  # noqa: E402
import json  # noqa: E402
import traceback  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--logs")
    a = ap.parse_args()
    from sim import boot

    try:
        boot.boot()
        from sim import engine, props

        if a.setup:
            # Nothing to build: check that everything can be imported.
            print("properties:", " ".join(sorted(props.get(p).id for p in props.table())))
            return 0
        prop = props.get(a.prop)
    except Exception:
        traceback.print_exc()
        return 2
    if a.replay:
        engine.warm(prop)
        rec, out = engine.replay_file(prop, a.replay)
        print(json.dumps({k: v for k, v in out.items() if k != "stats"}, default=str)[:2000])
        if out.kind in ("violation", "hang"):
            same = out["cls"] == rec["class"]
            print("reproduced" if same else f"another class: {out['cls']} instead of {rec['class']}")
            print(f"VIOLATION property={prop.id} replay={os.path.abspath(a.replay)}")
            return 1
        return 0 if out.kind == "ok" else 2
    if a.logs:
        engine.warm(prop)
        print(json.dumps(engine.logs(prop, a.seed, a.tier, [int(i) for i in a.logs.split(",")])))
        return 0
    return engine.check(prop, a.seed, a.tier, a.workers, a.runs, a.cap)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
