"""Campaign engine: cases from one seed, parallel workers, minimisation, replay, evidence."""
import glob
import hashlib
import json
import os
import re
import random
import subprocess
import sys
import tempfile
import threading
import time as _t
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable
HANG = 240      # seconds without an end of one simulated execution (usually well below ten)


def real_time():
    import seams
    return seams.real_monotonic()


def case_rng(prop, seed, i):
    h = hashlib.sha256(f"{prop}|{seed}|{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Outcome:
    """Result of one simulated execution."""

    def __init__(self):
        self.code = None
        self.msg = None
        self.stats = {}
        self.fp = None
        self.nontrivial = False

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def execute(mod, case):
    """Runs a case.  Returns (outcome, harness_error or None)."""
    from world import Violation
    import seams
    o = Outcome()
    try:
        mod.run(case, o)
    except Violation as v:
        o.code, o.msg = v.code, v.msg
    except seams.StepLimit as e:
        o.code, o.msg = "no-termination", str(e)
    except Exception as e:      # classify: did the code under test raise it?
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(os.environ.get("MOCAT_SIM_REPO", "/repo")) + "/mocat/"
        frames = [f for f in tb if os.path.realpath(f.filename).startswith(repo)]
        last_h = max([i for i, f in enumerate(tb) if os.path.realpath(f.filename).startswith(HERE)
                      and not f.filename.endswith("seams.py")], default=-1)
        last_m = max([i for i, f in enumerate(tb) if os.path.realpath(f.filename).startswith(repo)], default=-1)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if frames and last_m > last_h:
            o.code = f"exception:{type(e).__name__}"
            o.msg = f"{e} at {frames[-1].filename}:{frames[-1].lineno}"[:600]
        elif isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, NotImplementedError)):
            # a call of the public interface was refused, or what it returned does not have its documented fields and shapes
            f = tb[last_h] if last_h >= 0 else tb[-1]
            o.code = f"malformed:{type(e).__name__}"
            o.msg = f"{e} when judging the result in {f.name} ({os.path.basename(f.filename)}:{f.lineno})"[:600]
        else:
            return o, txt
    return o, None


def generic_shrinks(x):
    """Smaller variants of a JSON value (lists shortened, dict entries with numeric keys dropped)."""
    if isinstance(x, list) and x:
        n = len(x)
        if n > 3:
            yield x[:n // 2]
            yield x[n // 2:]
        for i in range(n):
            yield x[:i] + x[i + 1:]


def shrink(mod, case, o1, budget_s=15, max_tries=150):
    t0 = real_time()
    code = o1.code

    def kind(o):        # an exception must stay the same exception
        return re.sub(r"[\d.,()]+", "", o.msg or "") if ":" in (o.code or "") else None
    tries = 0
    cur = case
    improved = True
    while improved and tries < max_tries and real_time() - t0 < budget_s:
        improved = False
        for cand in mod.shrinks(cur):
            if tries >= max_tries or real_time() - t0 > budget_s:
                break
            tries += 1
            try:
                o, err = execute(mod, cand)
            except BaseException:
                continue
            if err is None and o.code == code and kind(o) == kind(o1):
                cur = cand
                improved = True
                break
    return cur, tries


# ---------------------------------------------------------------- worker
def worker_main(argv):
    prop, tier, seed, w, nw, out_path, ncases, deadline = argv
    seed, w, nw, ncases, deadline = int(seed), int(w), int(nw), int(ncases), float(deadline)
    import boot
    boot.boot()
    import props
    mod = props.load(prop)
    t0 = real_time()
    found = 0
    kf = known_findings(prop)
    history = []
    with open(out_path, "w") as out:
        def emit(d):
            out.write(json.dumps(d, default=str) + "\n")
            out.flush()
        emit({"started": w})
        for i in range(w, ncases, nw):
            if real_time() - t0 > deadline:
                emit({"deadline": i})
                break
            if len(glob.glob(os.path.join(os.path.dirname(out_path), f"failure-{prop}-*"))) >= 2:
                emit({"stopped_after_failures": i})      # enough to report
                break
            case = mod.gen(case_rng(prop, seed, i), i, tier)
            emit({"begin": i, "case": case})
            tc = real_time()
            o, err = execute(mod, case)
            rec = {"i": i, "code": o.code, "msg": o.msg, "stats": o.stats, "fp": o.fp, "nt": o.nontrivial,
                   "dt": real_time() - tc}
            if err is not None:
                rec["harness_error"] = err
                rec["case"] = case
                emit(rec)
                history.append(i)
                if sum(1 for _ in [0]) and (found := found + 1) > 3:
                    break
                continue
            if o.code is not None and match_known(kf, o.code, o.msg):
                rec["known"] = True
            elif o.code is not None:
                small, tries = shrink(mod, case, o)
                open(os.path.join(os.path.dirname(out_path), f"failure-{prop}-{i}"), "w").close()
                o2, err2 = execute(mod, small)
                rec["case"] = case
                rec["small"] = small
                rec["small_msg"] = o2.msg if o2.code == o.code else o.msg
                rec["shrink_tries"] = tries
                rec["history"] = list(history)
                found += 1
            elif i < nw * 2:
                rec["case"] = case
            emit(rec)
            history.append(i)
            if found >= 2:
                emit({"stopped_after_failures": i})
                break
        emit({"done": w})


# ---------------------------------------------------------------- replay
def replay(path):
    """Re-executes exactly the execution of a replay file; returns (code, msg)."""
    d = json.load(open(path))
    import boot
    boot.boot()
    import props
    mod = props.load(d["property"])
    for i in d.get("history", []):
        execute(mod, mod.gen(case_rng(d["property"], d["seed"], i), i, d["tier"]))

    def too_long():
        print("REPLAY " + json.dumps({"code": "no-termination", "msg": f"still running after {HANG} s"}), flush=True)
        os._exit(1)
    dog = threading.Timer(HANG * 2 / 3, too_long)
    dog.daemon = True
    dog.start()
    o, err = execute(mod, d["case"])
    dog.cancel()
    if err is not None:
        return "harness-error", err
    return o.code, o.msg


def replay_subprocess(path, timeout=300):
    p = subprocess.run([PY, os.path.join(HERE, "main.py"), "--replay", path], capture_output=True, text=True,
                       timeout=timeout, env=child_env())
    for line in p.stdout.splitlines():
        if line.startswith("REPLAY "):
            return json.loads(line[7:])
    return {"code": "harness-error", "msg": (p.stdout + p.stderr)[-2000:]}


def child_env():
    import boot
    e = dict(os.environ)
    e.update(boot.ENV)
    e.setdefault("PYTHONHASHSEED", "0")
    return e


# ---------------------------------------------------------------- campaign
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get("property") == prop and k.get("status") == "known"]


def match_known(kf, code, msg):
    return next((k for k in kf if k["code"] == code and k.get("match", "") in (msg or "")), None)


def campaign(prop, tier, seed, workers=None, ncases=None, quiet=False, evidence=True):
    import boot
    import props
    info = props.INFO[prop]
    t0 = _t.monotonic()
    ncases = ncases or info["cases"][tier]
    deadline = info.get("deadline", {}).get(tier, 420 if tier == "quick" else 3000)
    nw = workers or min(os.cpu_count() or 4, 8, max(1, ncases // 4))
    tmp = tempfile.mkdtemp(prefix=f"mocat-sim-{prop}-")
    procs = []
    for w in range(nw):
        op = os.path.join(tmp, f"w{w}.jsonl")
        lg = open(os.path.join(tmp, f"w{w}.log"), "w")
        procs.append((subprocess.Popen([PY, os.path.join(HERE, "main.py"), "--worker", prop, tier, str(seed), str(w),
                                        str(nw), op, str(ncases), str(deadline)], stdout=lg, stderr=lg,
                                       env=child_env(), cwd=tmp), op, lg))
    hard = deadline + 300
    hung = set()
    seen = {op: (None, _t.monotonic()) for _, op, _ in procs}
    while any(p.poll() is None for p, _, _ in procs):
        now = _t.monotonic()
        for p, op, lg in procs:
            size = os.path.getsize(op) if os.path.exists(op) else -1
            if size != seen[op][0]:
                seen[op] = (size, now)
            if p.poll() is None and (now - seen[op][1] > HANG or now - t0 > hard):
                p.kill()
                p.wait()
                if now - seen[op][1] > HANG:
                    hung.add(op)
        _t.sleep(0.1)
    for p, op, lg in procs:
        lg.close()
    recs, errors, failures, stopped = [], [], [], 0
    for p, op, lg in procs:
        begun = None
        done = False
        if os.path.exists(op):
            for line in open(op):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "begin" in d:
                    begun, begun_case = d["begin"], d["case"]
                if "done" in d:
                    done = True
                if "deadline" in d or "stopped_after_failures" in d:
                    stopped += 1
                if "i" in d:
                    recs.append(d)
        if not done and op in hung and begun is not None:
            recs.append({"i": begun, "code": "no-termination", "msg": f"still running after {HANG} s", "case": begun_case, "small": None,
                         "small_msg": f"still running after {HANG} s", "shrink_tries": 0, "history": [], "stats": {}, "fp": None, "nt": False})
        elif not done:
            log = open(lg.name).read()[-2000:]
            errors.append(f"worker did not finish (rc={p.returncode}, in case {begun}): {log}")
    for d in recs:
        if d.get("harness_error"):
            errors.append(f"case {d['i']}: {d['harness_error']}")
        elif d["code"] is not None:
            failures.append(d)
    # ---- failures: known findings, confirm in a fresh process, report
    kf = known_findings(prop)
    kf_seen = {}
    real = []
    for d in sorted(failures, key=lambda d: d["i"]):
        hit = match_known(kf, d["code"], d["msg"])
        if hit:
            kf_seen.setdefault(hit["id"], d)
        else:
            real.append(d)
    rdir = os.path.join(VERIF, "replays")
    reported = []
    for d in real[:6]:
        os.makedirs(rdir, exist_ok=True)
        name = f"{prop}-{hashlib.sha256(json.dumps([d['small'], d['code']], sort_keys=True).encode()).hexdigest()[:10]}.json"
        path = os.path.join(rdir, name)
        base = {"property": prop, "tier": tier, "seed": seed, "case_index": d["i"], "violation": d["code"],
                "detail": d["small_msg"], "shrink_tries": d["shrink_tries"]}
        confirmed = False
        for variant in ({"case": d["small"]}, {"case": d["case"]}, {"case": d["case"], "history": d["history"]}):
            if variant["case"] is None:
                continue
            json.dump(dict(base, **variant), open(path, "w"), indent=1)
            try:
                r = replay_subprocess(path)
            except subprocess.TimeoutExpired:
                r = {"code": "timeout"}
            if r["code"] == d["code"]:
                confirmed = True
                break
        if confirmed:
            reported.append((d, path))
            if len(reported) >= 3:
                break
        else:
            errors.append(f"case {d['i']} failed with {d['code']} ({d['msg']}) but did not reproduce from {path}")
    wall = _t.monotonic() - t0
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + (f" (seen at case {kf_seen[k['id']]['i']})" if k["id"] in kf_seen else ""))
    for d, path in reported:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {d['code']}: {d['small_msg']} (case {d['i']} of seed {seed})")
    stats = {}
    for d in recs:
        for k, v in (d.get("stats") or {}).items():
            if isinstance(v, (int, float)):
                stats[k] = stats.get(k, 0) + v
    fps = {d["fp"] for d in recs if d.get("nt") and d.get("fp")}
    if evidence:
        write_evidence(prop, tier, seed, info, recs, fps, stats, wall, len(reported), stopped, nw)
    if not quiet:
        print(f"{prop}: {len(recs)} executions, {len(fps)} distinct non-trivial, {wall:.0f}s, {nw} workers"
              + (f", stopped early {stopped}" if stopped else ""))
    for e in errors[:3]:
        print("HARNESS-ERROR", e[:200] + " ... " + e[-700:] if len(e) > 900 else e, file=sys.stderr)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    if reported:
        return 1
    if errors:
        return 2
    return 0


def write_evidence(prop, tier, seed, info, recs, fps, stats, wall, nviol, stopped, nw):
    samples = []
    for d in recs:
        if d.get("case") is not None and len(samples) < 3:
            samples.append({"index": d["i"], "case": d["case"], "result": d["code"] or "held"})
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe:")}
    n = len(recs)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(fps),
        "rule": info["rule"],
        "samples": samples or [{"note": "no execution finished"}],
        "exhaustive": False,
        "simulated_runs_per_hour": round(n / wall * 3600) if wall else 0,
        "seeds_per_hour": round(n / wall * 3600) if wall else 0,
        "simulated_steps": int(stats.get("ticks", 0)),
        "simulated_time_s": round(stats.get("sim_time", 0), 3),
        "faults_injected": faults,
        "rare_condition_probes": probes,
        "other_counts": {k: v for k, v in stats.items() if not k.startswith(("fault:", "probe:"))
                         and k not in ("ticks", "sim_time")},
        "distinct_measure": "hash of the execution's event log (draws, branches, callback calls, fault points, outcomes)",
        "real_components": info["real"],
        "stubbed_components": info["stub"],
        "workers": nw,
        "stopped_early_workers": stopped,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": info.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1, default=str)
    os.replace(path + ".tmp", path)


def fingerprint(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:16]
