"""Self-test of the simulator: one seed is one execution.

Runs the first cases of every check twice, in differently many processes and with different hash seeds (so that every case
meets another process history), and compares outcome, event fingerprint and step counts case by case.

    python sim/selftest.py [--cases 16] [--property C06 ...]
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import boot
import engine
import props


def go(prop, ncases, nw, hashseed, tmp):
    env = dict(engine.child_env(), PYTHONHASHSEED=str(hashseed))
    ps = []
    for w in range(nw):
        op = os.path.join(tmp, f"{prop}-{nw}-{w}.jsonl")
        ps.append((subprocess.Popen([engine.PY, os.path.join(HERE, "main.py"), "--worker", prop, "quick", "1", str(w), str(nw),
                                     op, str(ncases), "600"], env=env, cwd=tmp, stdout=subprocess.DEVNULL,
                                    stderr=subprocess.DEVNULL), op))
    out = {}
    for p, op in ps:
        p.wait()
        for line in open(op):
            d = json.loads(line)
            if "fp" in d:
                st = {k: v for k, v in (d.get("stats") or {}).items()
                      if not k.startswith("cache")}
                out[d["i"]] = (d["code"], d["fp"], json.dumps(st, sort_keys=True), d.get("harness_error"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--cases", type=int, default=16)
    ap.add_argument("--property", nargs="*", default=sorted(props.INFO))
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="mocat-selftest-")
    bad = 0
    try:
        for prop in a.property:
            x, y = go(prop, a.cases, 3, 0, tmp), go(prop, a.cases, 4, 12345, tmp)
            diff = [i for i in range(a.cases) if x.get(i) is None or x.get(i) != y.get(i)]
            bad += len(diff)
            print(prop, "same" if not diff else f"DIFFERENT in cases {diff}", f"({len(x)} cases)", flush=True)
            for i in diff[:2]:
                print("   ", x.get(i), "\n   ", y.get(i))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
