"""C12: runs do not depend on other runs.  C13: a failed run leaves scenario and sampler as good as new."""
import copy
import hashlib
import json
import os
import random as pyrandom
import subprocess
import sys
import tempfile
import threading
import jax
import jax.numpy as jnp
import numpy as np
import mocat
from mocat.src.core import is_implemented
from jax import random
import seams
import shr
import zoo
from engine import fingerprint
from world import check, key_of, snap

TARGETS = ["rw", "ud", "qn", "smc", "rmsmc", "svgd"]
ABCS = ["vanilla", "quantile", "imp", "rwabc", "abcsmc", "teki", "ateki"]
TEMPERING = {"smc", "rmsmc"}
CHAINS = {"rw", "ud", "qn", "vanilla", "quantile", "imp", "rwabc"}
COMPILED = ["rw", "svgd", "filter", "ffbsi", "vanilla", "ud", "teki", "lag", "smc"]
COMPILED13 = ["smc", "smc", "rmsmc", "rw", "svgd", "abcsmc", "filter", "ud"]


def work(rng, fam, tier="quick"):
    w = zoo.gen_work(rng, fam=fam, draws=False, small=tier != "thorough", faults=rng.random() < 0.5)
    w["case"]["draws"] = {"uniform": {}, "normal": {}, "cat": {}}
    return w


def family(rng, i):
    return zoo.ALL[i % len(zoo.ALL)] if i % 3 else rng.choice(zoo.RUNS)


def gen(prop, rng, i, tier):
    if prop == "C13":
        return gen13(rng, i, tier)
    mode = rng.choices(["history", "threads", "process", "compiled"], [62, 26, 4, 8])[0]
    fam = rng.choice(COMPILED) if mode == "compiled" else family(rng, i)
    w = work(rng, fam, tier)
    c = {"prop": prop, "mode": mode, "work": w, "key": rng.randrange(1 << 30), "extra": gen_extra(rng, w)}
    if mode == "threads":
        c["others"] = []
        for _ in range(rng.choice([1, 1, 2])):
            shared = fam in TARGETS + ABCS and fam not in TEMPERING and rng.random() < 0.5
            f2 = rng.choice([f for f in (TARGETS if fam in TARGETS else ABCS) if f not in TEMPERING]) if shared else rng.choice(zoo.ALL)
            if rng.random() < 0.3 and not (shared and fam in TEMPERING):
                f2 = fam
            w2 = work(rng, f2, tier)
            if shared:
                w2 = on_scenario(w2, w)
            c["others"].append({"work": w2, "shared": shared, "key": rng.randrange(1 << 30)})
        c["sched"] = rng.randrange(1 << 30)
        c["quantum"] = rng.choice([1, 3, 10, 40])
        return c
    if mode == "process":
        c["hashseed"] = rng.randrange(1000)
        return c
    c["history"] = []
    for _ in range(rng.choice([1, 1, 2, 2, 3]) if mode == "history" else rng.choice([1, 2])):
        op = rng.choice(["same", "elsewhere", "elsewhere", "scenario", "other"])
        if fam in zoo.SIMS + zoo.BUILTIN and op in ("elsewhere", "scenario"):
            op = "same"
        e = {"op": op, "key": rng.randrange(1 << 30)}
        if op == "elsewhere":
            e["work"] = zoo.resized(w, rng)
        elif op == "scenario":
            f2 = rng.choice(TARGETS if fam in TARGETS else ABCS if fam in ABCS else [f for f in zoo.SSMS if f != "simulate"])
            if mode == "compiled" and fam in zoo.RUNS:
                f2 = "rw" if fam in TARGETS else "vanilla"
            e["work"] = on_scenario(work(rng, f2, tier), w)
        elif op == "other":
            e["work"] = work(rng, rng.choice(COMPILED if mode == "compiled" else zoo.ALL), tier)
        c["history"].append(e)
    return c


def gen_extra(rng, w):
    """An initial extra given by the user (or not)."""
    if w["fam"] not in zoo.RUNS or rng.random() < 0.6:
        return None
    return {"key_inside": rng.random() < 0.4, "parameters": rng.random() < 0.5}


def on_scenario(w2, w):
    """w2's algorithm on w's scenario."""
    w2 = copy.deepcopy(w2)
    a, b = w["case"], w2["case"]
    if "target" in a:
        b["target"] = copy.deepcopy(a["target"])
        b["constrain"] = a.get("constrain", False)
        if isinstance(b.get("init"), list):
            b["init"] = (b["init"] * 3)[:a["target"]["dim"]]
        if isinstance(b.get("stepsize"), list):
            b["stepsize"] = 0.3
    else:
        for k in ("model", "times", "ys", "filter"):
            if k in a:
                b[k] = copy.deepcopy(a[k])
    return w2


def gen13(rng, i, tier):
    comp = rng.random() < 0.1
    fam = rng.choice(COMPILED13) if comp else (rng.choice(["smc", "rmsmc", "smc"]) if rng.random() < 0.2 else family(rng, i))
    w = work(rng, fam, tier)
    fails = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        fails.append({"kind": rng.choice(["interrupt", "interrupt", "raise"]) if not comp else "raise", "at": round(rng.random(), 5),
                      "key": rng.randrange(1 << 30) if rng.random() < 0.3 else None})
    if comp:
        fails = fails[:1]
    return {"prop": "C13", "mode": "compiled" if comp else "stepped", "work": w, "key": rng.randrange(1 << 30), "fails": fails,
            "extra": gen_extra(rng, w), "temp": rng.choice([None, None, 0.37, 2.]) if fam in TARGETS else None}


def shrinks(case):
    for nm in ("history", "others", "fails"):
        for k in range(len(case.get(nm, []))):
            if len(case[nm]) > 1:
                c = copy.deepcopy(case)
                del c[nm][k]
                yield c
    if case.get("extra"):
        yield dict(case, extra=None)
    if case.get("mode") == "threads" and case["quantum"] < 100:
        yield dict(case, quantum=case["quantum"] * 4)
    for f in range(len(case.get("fails", []))):
        for at in (0., 0.25, 0.5, 0.75):
            if case["fails"][f]["at"] > at + 0.01:
                c = copy.deepcopy(case)
                c["fails"][f]["at"] = at
                yield c
    w = case["work"]["case"]
    if w.get("target", w.get("model", {})).get("faults", {}).get("mode", "none") != "none":
        c = copy.deepcopy(case)
        ws = [c["work"]] + [h["work"] for h in c.get("history", []) + c.get("others", []) if "work" in h]
        for x in ws:
            for nm in ("target", "model"):
                if nm in x["case"]:
                    x["case"][nm]["faults"] = {"mode": "none"}
        yield c


# ------------------------------------------------------------------ observations
def give_extra(case, ob, key):
    """Returns the key argument; sets ob.extra."""
    e = case.get("extra")
    if not e:
        return key
    ob.extra = mocat.cdict()
    if e["parameters"]:
        ps = mocat.cdict()
        for k in ("stepsize", "friction", "nugget"):
            v = getattr(ob.sampler.parameters, k, None) if hasattr(ob.sampler, "parameters") else None
            if isinstance(v, float) and k in case["work"]["case"].get("kw", {k: 1}):
                setattr(ps, k, v * 0.9)
        ob.extra.parameters = ps
    if e["key_inside"]:
        ob.extra.random_key = key
        return None
    return key


def inputs(ob):
    return {"state": None if ob.init is None else snap(ob.init), "extra": None if ob.extra is None else snap(ob.extra)}


def frozen(v, depth=0):
    if isinstance(v, jax.core.Tracer):
        return "TRACER"
    if isinstance(v, mocat.cdict):
        return {k: frozen(x, depth + 1) for k, x in v.__dict__.items()}
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if isinstance(v, (np.ndarray, jnp.ndarray, np.generic)):
        a = np.asarray(v)
        return [str(a.dtype)[:3], a.shape, a.tobytes()]
    if isinstance(v, dict):
        return {str(k): frozen(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x, depth + 1) for x in v]
    return None     # functions and internal objects


def settings(ob, fam):
    """Settings a user can read back."""
    out = {}
    for k, v in ob.scen.__dict__.items():
        if k not in ("faults", "spec") and not callable(v):
            out["scenario." + k] = frozen(v)
    if fam in zoo.RUNS or fam in ("btoy", "babc"):
        for nm, s in (("sampler", ob.sampler), ("mcmc_sampler", getattr(ob.sampler, "mcmc_sampler", None))):
            if s is None:
                continue
            for k in ("parameters", "tuning"):
                if hasattr(s, k):
                    out[f"{nm}.{k}"] = frozen(getattr(s, k))
            t = out.get(nm + ".tuning")
            if isinstance(t, dict) and t.get("monotonicity") is not None:
                t["monotonicity"] = {"increasing": 1, "decreasing": -1}.get(t["monotonicity"], t["monotonicity"])
            for k in ("max_temperature", "temperature_schedule", "threshold_schedule", "sort_bfgs"):
                if hasattr(s, k):
                    out[f"{nm}.{k}"] = frozen(getattr(s, k))
            if fam not in CHAINS and nm == "sampler" and fam not in ("btoy", "babc"):
                out[nm + ".max_iter"] = frozen(s.max_iter)
            c = getattr(s, "correction", None)
            if c is not None and not isinstance(c, type):
                out[f"{nm}.correction"] = {k: frozen(v) for k, v in c.__dict__.items() if isinstance(v, (int, float, str))}
        if hasattr(ob.sampler, "kernel"):
            out["kernel"] = frozen(ob.sampler.kernel.parameters)
    for k in ob.kw:     # given to run: reconfigures the sampler
        for nm in IMPLIED.get(k, (k,)):
            out.pop("sampler." + nm, None)
        if isinstance(out.get("sampler.parameters"), dict):
            out["sampler.parameters"].pop(k, None)
    return out


IMPLIED = {"temperature_schedule": ("temperature_schedule", "max_temperature", "max_iter"), "threshold_schedule": ("threshold_schedule", "max_iter")}


def tuned(fam, name):
    """Settings documented to be tuned by a run."""
    return (fam == "quantile" and name == "sampler.parameters.threshold") or (fam in TEMPERING | {"btoy"} and name == "scenario.temperature")


def changed(a, b, fam, path=""):
    out = []
    for k in sorted(set(a) | set(b)):
        p = path + k
        x, y = a.get(k, "absent"), b.get(k, "absent")
        if tuned(fam, p):
            if y == "TRACER":
                out.append(p)
            continue
        if isinstance(x, dict) and isinstance(y, dict):
            out += changed(x, y, fam, p + ".")
        elif not (x == y or (x != x and y != y)):
            if p.endswith(".correction"):
                continue
            out.append(p)
    return out


def same_settings(before, ob, fam, what):
    after = settings(ob, fam)
    ch = changed(before, after, fam)
    check(not ch, "settings-altered", "%s: %s altered %s", fam, what,
          ", ".join(f"{k} ({short(dig(before, k))} -> {short(dig(after, k))})" for k in ch[:3]))


def dig(d, path):
    for k in d:
        if path == k:
            return d[k]
        if path.startswith(k + ".") and isinstance(d[k], dict):
            return dig(d[k], path[len(k) + 1:])
    return "absent"


def short(v):
    if isinstance(v, list) and len(v) == 3 and isinstance(v[2], bytes):
        try:
            return str(np.frombuffer(v[2], {"flo": "f4", "int": "i4", "uin": "u4"}.get(v[0], "u1"))[:4])
        except ValueError:
            return "array"
    return repr(v)[:60]


def same_inputs(before, ob, what):
    after = inputs(ob)
    for k in before:
        a, b = before[k], after[k]
        d = None if a is None and b is None else ("replaced" if a is None or b is None else zoo.diff(a, b))
        check(d is None, "input-altered", "%s altered the initial %s given by the user: %s", what, k, d)


def carry(case, spec, ob, key, o, step, plan_extra=True):
    """One run in its own context: returns (result, records, ctx)."""
    with seams.Ctx(step=step) as ctx:
        res = zoo.raw(spec, ob, key)
    o.bump("ticks", ctx.ticks)
    return res, zoo.records(res), ctx


def digest(rec):
    h = hashlib.sha256()

    def put(d):
        for k in sorted(d):
            v = d[k]
            h.update(k.encode())
            if isinstance(v, dict):
                put(v)
            elif isinstance(v, np.ndarray):
                h.update(str((v.dtype, v.shape)).encode() + np.ascontiguousarray(v).tobytes())
            elif not callable(v):
                h.update(repr(v).encode())
    put(rec)
    return h.hexdigest()


# ------------------------------------------------------------------ C12
def run(case, o):
    if case["prop"] == "C13":
        return run13(case, o)
    spec, fam, step = case["work"], case["work"]["fam"], case["mode"] != "compiled"
    K = key_of(case["key"])
    ob0 = zoo.build(spec)
    key0 = give_extra(case, ob0, K)
    ins = inputs(ob0)
    st = settings(ob0, fam)
    res0, ref, _ = carry(case, spec, ob0, key0, o, step)
    same_settings(st, ob0, fam, "a run")
    same_inputs(ins, ob0, f"{fam}: a run")
    o.nontrivial = True
    o.fp = fingerprint(fam, case["mode"], digest(ref), [h["op"] for h in case.get("history", [])], case.get("sched"))
    if case["mode"] == "threads":
        return threads(case, o, ref)
    if case["mode"] == "process":
        return process(case, o, ref)
    # repeat with the very same objects
    ob = zoo.build(spec)
    key = give_extra(case, ob, K)
    kept = []
    for n, h in enumerate(case["history"]):
        hk = key_of(h["key"])
        spec2 = h.get("work", spec)
        fam2 = spec2["fam"]
        scen, samp, init, extra = None, None, None, None
        if h["op"] == "same":
            ob2 = ob
            if ob.extra is not None and hasattr(ob.extra, "random_key"):
                hk = None
        elif h["op"] == "elsewhere":
            b = zoo.build(spec2)
            ob2 = zoo.Objs(b.scen, ob.sampler, b.init, ob.kw, ob.inner)
        elif h["op"] == "scenario":
            b = zoo.build(spec2)
            ob2 = zoo.Objs(ob.scen, b.sampler, b.init, b.kw, b.inner)
        else:
            ob2 = zoo.build(spec2)
        temp = getattr(ob2.scen, "temperature", None)
        st, ins = settings(ob2, fam2), inputs(ob2)
        r, rec, _ = carry(case, spec2, ob2, hk, o, step)
        same_settings(st, ob2, fam2, f"run {n} ({h['op']})")
        same_inputs(ins, ob2, f"{fam2}: run {n}")
        kept.append((r, rec, n, h["op"], fam2))
        if fam2 in TEMPERING and temp is not None:
            ob2.scen.temperature = temp     # the final temperature stays in force: the user sets it back
        o.bump("probe:earlier run " + h["op"])
    st, ins = settings(ob, fam), inputs(ob)
    try:
        r, rec, _ = carry(case, spec, ob, key, o, step)
    except Exception as e:
        check(False, "run-fails-after-others", "%s: after runs %s the same run raises %s: %s", fam, [h["op"] for h in case["history"]], type(e).__name__, str(e)[:300])
    d = zoo.diff(rec, ref)
    check(d is None, "depends-on-history", "%s: after runs %s the result differs from that of fresh objects in %s", fam,
          [h["op"] + ":" + h.get("work", spec)["fam"] for h in case["history"]], d)
    same_settings(st, ob, fam, "the last run")
    for r, rec, n, op, f2 in kept:
        d = zoo.diff(zoo.records(r), rec)
        check(d is None, "earlier-result-altered", "%s: the result of run %d (%s) was altered by a later run: %s", f2, n, op, d)
    # the very first result and a plain repeat
    res1, rec1, _ = carry(case, spec, ob, key, o, step)
    d = zoo.diff(rec1, ref)
    check(d is None, "repeat-differs", "%s: repeating a run gives another result: %s", fam, d)
    d = zoo.diff(zoo.records(res0), ref)
    check(d is None, "earlier-result-altered", "%s: the first result was altered by later runs: %s", fam, d)


class Baton:
    """Seeded scheduler: exactly one thread runs; at every tick the schedule may hand over."""

    def __init__(self, n, seed, quantum):
        self.rng = pyrandom.Random(seed)
        self.alive = set(range(n))
        self.turn = None
        self.left = 0
        self.q = quantum
        self.cv = threading.Condition()
        self.switches = 0

    def _next(self):
        if self.alive:
            t = self.rng.choice(sorted(self.alive))
            self.switches += t != self.turn
            self.turn = t
            self.left = self.rng.randint(1, self.q)
        self.cv.notify_all()

    def start(self):
        with self.cv:
            self._next()

    def wait(self, me):
        with self.cv:
            while self.turn != me:
                self.cv.wait()

    def tick(self, me):
        with self.cv:
            self.left -= 1
            if self.left <= 0:
                self._next()
                while self.turn != me:
                    self.cv.wait()

    def leave(self, me):
        with self.cv:
            self.alive.discard(me)
            self._next()


def threads(case, o, ref):
    works = [{"work": case["work"], "key": case["key"], "shared": False}] + case["others"]
    refs = [ref]
    for w in case["others"]:
        ob = zoo.build(w["work"])
        refs.append(carry(case, w["work"], ob, key_of(w["key"]), o, True)[1])
    obs = []
    for j, w in enumerate(works):
        ob = zoo.build(w["work"])
        if j and w["shared"]:
            ob.scen = obs[0].scen
        obs.append(ob)
    keys = [key_of(w["key"]) for w in works]
    keys[0] = give_extra(case, obs[0], keys[0])
    baton = Baton(len(works), case["sched"], case["quantum"])
    out = [None] * len(works)

    def body(j):
        baton.wait(j)
        try:
            with seams.Ctx() as ctx:
                ctx.on_tick = lambda kind: baton.tick(j)
                out[j] = zoo.records(zoo.raw(works[j]["work"], obs[j], keys[j]))
        except BaseException as e:
            out[j] = e
        finally:
            baton.leave(j)
    ts = [threading.Thread(target=body, args=(j,), daemon=True) for j in range(len(works))]
    for t in ts:
        t.start()
    baton.start()
    for t in ts:
        t.join(240)
        if t.is_alive():
            raise RuntimeError("a simulated thread did not finish")
    fams = [w["work"]["fam"] + ("+shared scenario" if w["shared"] else "") for w in works]
    for j, w in enumerate(works):
        if isinstance(out[j], BaseException):
            check(False, "thread-raises", "%s interleaved with the others of %s raises %s: %s", fams[j], fams, type(out[j]).__name__, str(out[j])[:300])
        d = zoo.diff(out[j], refs[j])
        check(d is None, "thread-interference", "%s interleaved with the others of %s differs from running alone in %s", fams[j], fams, d)
    o.bump("fault:thread switch", baton.switches)
    o.fp = fingerprint(o.fp, baton.switches)


def process(case, o, ref):
    from engine import PY, HERE, child_env
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    try:
        json.dump(case, f)
        f.close()
        p = subprocess.run([PY, os.path.join(HERE, "main.py"), "--fresh", f.name], capture_output=True, text=True, timeout=240,
                           env=dict(child_env(), PYTHONHASHSEED=str(case["hashseed"])))
        got = [l[7:] for l in p.stdout.splitlines() if l.startswith("DIGEST ")]
        if not got:
            raise RuntimeError("fresh process failed: " + (p.stdout + p.stderr)[-1500:])
        check(got[0] == digest(ref), "process-dependence", "%s: a fresh process (hash seed %d) gives another result", case["work"]["fam"], case["hashseed"])
        o.bump("probe:fresh process")
    finally:
        os.unlink(f.name)


def child(path):
    case = json.load(open(path))
    ob = zoo.build(case["work"])
    key = give_extra(case, ob, key_of(case["key"]))
    with seams.Ctx():
        print("DIGEST " + digest(zoo.records(zoo.raw(case["work"], ob, key))))


# ------------------------------------------------------------------ C13
def evaluate(ob, spec):
    """What the scenario evaluates to at a few points, outside any simulated run."""
    scen, out = ob.scen, {}
    fam = spec["fam"]
    if fam in zoo.SSMS + ["bssm"] + zoo.SIMS:
        return out
    r = np.random.default_rng(7)
    dim = getattr(scen, "dim", 1)
    k = random.PRNGKey(5)
    t = getattr(scen, "temperature", None)
    out["temperature"] = None if t is None else np.array(float(t))
    for j in range(2):
        x = jnp.asarray(r.normal(size=dim), jnp.float32)
        for nm in ("prior_potential", "likelihood_potential", "potential", "grad_potential", "prior_sample", "likelihood_sample"):
            f = getattr(scen, nm, None)
            if f is None or (is_implemented(f) is False):
                continue
            try:
                v = f(k) if nm == "prior_sample" else f(x, k)
            except (AttributeError, TypeError, NotImplementedError):
                continue
            out[f"{nm}({j})"] = np.array(v)
    return out


def run13(case, o):
    spec, fam, step = case["work"], case["work"]["fam"], case["mode"] != "compiled"
    K = key_of(case["key"])

    def fresh():
        ob = zoo.build(spec)
        if case["temp"] is not None:
            ob.scen.temperature = case["temp"]
        return ob, give_extra(case, ob, K)
    ob0, key0 = fresh()
    _, ref, ctx0 = carry(case, spec, ob0, key0, o, step)
    ob, key = fresh()
    ev0 = evaluate(ob, spec)
    st, ins = settings(ob, fam), inputs(ob)
    done = []
    temp0 = getattr(ob.scen, "temperature", None)
    for f in case["fails"]:
        fk = key if f["key"] is None or (ob.extra is not None and hasattr(ob.extra, "random_key")) else key_of(f["key"])
        faults = getattr(ob.scen, "faults", None)
        old = None
        events = [e for e in ctx0.events]
        with seams.Ctx(step=step) as ctx:
            if f["kind"] == "raise" and faults is not None and events:
                e = events[min(len(events) - 1, int(f["at"] * len(events)))]
                old = dict(faults.calls)
                faults.calls[(e["cb"], e["idx"])] = "raise"
                what, kind = f"exception in {e['cb']} call {e['idx']}", seams.InjectedError
            else:
                ctx.interrupt_at = 1 + int(f["at"] * ctx0.ticks)
                what, kind = f"interruption at step {ctx.interrupt_at} of {ctx0.ticks}", seams.Interrupted
            raised = None
            try:
                zoo.raw(spec, ob, fk)
            except BaseException as e:
                raised = e
            fired = ctx.interrupt_at is None if kind is seams.Interrupted else sum(v for k, v in faults.fired.items() if k.startswith("raise@")) > 0
            ctx.interrupt_at = None
        o.bump("ticks", ctx.ticks)
        if old is not None:
            faults.calls = old
            faults.fired = {}
        if not fired:
            if raised is not None and not isinstance(raised, kind):
                raise raised
            if temp0 is not None:
                ob.scen.temperature = temp0     # a completed run leaves its final temperature in force
            continue
        o.bump("fault:" + ("interruption" if kind is seams.Interrupted else "callback exception"))
        where = [k for k in ctx.stats if str(k).startswith("interrupt@")]
        done.append((what, where, ctx.ticks))
        check(raised is not None, "failure-swallowed", "%s: %s did not reach the caller", fam, what)
        check(isinstance(raised, kind), "failure-replaced", "%s: after %s the caller got %s: %s", fam, what, type(raised).__name__, str(raised)[:300])
        try:
            ev = evaluate(ob, spec)
        except Exception as e:
            check(False, "scenario-broken", "%s: after %s the scenario cannot be evaluated: %s: %s", fam, what, type(e).__name__, str(e)[:300])
        d = zoo.diff(ev, ev0)
        check(d is None, "scenario-altered", "%s: after %s the scenario evaluates differently: %s (temperature %s, was %s)", fam, what, d,
              ev.get("temperature"), ev0.get("temperature"))
        after = settings(ob, fam)
        ch = changed(st, after, "strict")
        check(not ch, "settings-altered", "%s: %s altered %s", fam, what,
              ", ".join(f"{k} ({short(dig(st, k))} -> {short(dig(after, k))})" for k in ch[:3]))
        same_inputs(ins, ob, f"{fam}: {what}")
    if not done:
        return
    try:
        _, rec, _ = carry(case, spec, ob, key, o, step)
    except Exception as e:
        check(False, "rerun-fails", "%s: after %s a further run raises %s: %s", fam, done[-1][0], type(e).__name__, str(e)[:300])
    d = zoo.diff(rec, ref)
    check(d is None, "rerun-differs", "%s: after %s a further run differs from one with fresh objects in %s", fam, done[-1][0], d)
    o.nontrivial = True
    o.fp = fingerprint(fam, case["mode"], done, digest(ref))

