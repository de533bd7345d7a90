"""C14: durations are elapsed time whatever the wall clock does, and clocks never change values."""
import copy
import os
import shutil
import tempfile
import numpy as np
import mocat
from jax import random
import seams
import shr
import zoo
from engine import fingerprint
from world import check, key_of

FAMS = zoo.RUNS + ["ffbsi", "ffbsi", "ffbsi", "btoy", "babc"]
FILTER_CB = {"initial_sample", "transition_sample", "likelihood_potential"}


def gen_clock(rng):
    jumps = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        where = rng.choice([["frac", round(rng.random(), 4)], ["frac", round(rng.random(), 4)], ["read", rng.randint(0, 3), rng.choice([-1, 0, 1])]])
        delta = rng.choice([0., -3600., 3600., -1e-3, -0.5, 86400. * 365, -1.6e9, 30., round(rng.uniform(-5, 5), 3)])
        stall = rng.choice([0., 0., 0., 0.25, 5., 600.])
        jumps.append([where, delta, stall])
    return {"per_tick": rng.choice([1e-6, 1e-4, 1e-3, 0.1]), "start": rng.choice([1.6e9, 0., 4e9]), "jumps": jumps,
            "drift": rng.choice([0., 0., 0., -1., -0.5, 1., -3.]), "device": rng.choice([0., 0., 0.5, 0.9, 1.])}


def gen(prop, rng, i, tier):
    fam = FAMS[i % len(FAMS)]
    w = zoo.gen_work(rng, fam=fam, draws=rng.random() < 0.3, small=tier != "thorough")
    if fam == "bssm":
        w["case"]["what"] = "ffbsi"
    c = {"prop": prop, "work": w, "clock": gen_clock(rng), "runs": rng.choice([1, 1, 2, 2, 3]), "key": rng.randrange(1 << 30),
         "compiled": rng.random() < (0.06 if tier == "quick" else 0.1), "reload": rng.random() < 0.3}
    if fam in ("teki", "ateki") or c["compiled"]:
        c["runs"] = 1
    if c["compiled"]:
        c["work"]["case"]["draws"] = {"uniform": {}, "normal": {}, "cat": {}}
    return c


def shrinks(case):
    if case["runs"] > 1:
        yield dict(case, runs=case["runs"] - 1)
    js = case["clock"]["jumps"]
    for i in range(len(js)):
        c = copy.deepcopy(case)
        del c["clock"]["jumps"][i]
        yield c
    for i in range(len(js)):
        if js[i][1] and js[i][2]:
            for k in (1, 2):
                c = copy.deepcopy(case)
                c["clock"]["jumps"][i][k] = 0.
                yield c
    for k in ("drift", "device"):
        if case["clock"][k]:
            c = copy.deepcopy(case)
            c["clock"][k] = 0.
            yield c
    yield from shr.candidates(case, ints=[("work.case.n", 2), ("work.case.nsamps", 1), ("work.case.maxrej", 0)],
                              dicts=["work.case.draws.uniform", "work.case.draws.cat", "work.case.draws.normal"],
                              sets=[("work.case.target.faults", {"mode": "none"}), ("work.case.model.faults", {"mode": "none"}), ("reload", False)])


class Run:
    pass


def once(case, key, clock, o):
    """One call of the work with its timeline."""
    spec = case["work"]
    ob = zoo.build(spec)
    r = Run()
    at = [clock.total]
    r.t0 = clock.total
    with seams.Ctx(step=not case["compiled"], clock=clock) as ctx:
        zoo.set_plan(spec, ctx)
        ctx.on_tick = lambda kind: at.append(clock.total)
        r.res = zoo.raw(spec, ob, key)
    r.t1 = clock.total
    clock.sync()
    r.rec = zoo.records(r.res)
    r.at, r.ups, r.events = at, ctx.stats.get("updates", []), ctx.events
    o.bump("ticks", ctx.ticks)
    return r


def seconds(r, nm):
    v = getattr(r.res, nm, None)
    check(v is not None, "no-duration", "the result has no %s", nm)
    a = np.asarray(v)
    check(a.shape == () and np.isfinite(float(a)), "duration-not-a-number", "%s is %r", nm, v)
    return float(a)


def judge(case, r, clock):
    spec = case["work"]
    tol = 1e-9 + 1e-6 * (r.t1 - r.t0)
    what = "clock steps %s, drift %s" % (clock.jlog, clock.drift)
    t = seconds(r, "time")
    check(t >= 0., "duration-negative", "%s: reported duration %.6f s (%s)", spec["fam"], t, what)
    check(t <= r.t1 - r.t0 + tol, "duration-too-long", "%s: reported duration %.6f s, the whole call took %.6f s (%s)", spec["fam"], t, r.t1 - r.t0, what)
    ffbsi = "bsi_time" in r.res.__dict__
    if r.ups:
        work = r.at[r.ups[-1]["tick1"]] - r.at[r.ups[0]["tick0"]]
        check(t >= work - tol, "duration-too-short", "%s: reported duration %.6f s, its updates alone took %.6f s (%s)", spec["fam"], t, work, what)
    if spec["fam"] == "ffbsi":
        p, b = seconds(r, "pf_time"), seconds(r, "bsi_time")
        check(p >= 0. and b >= 0., "duration-negative", "filtering %.6f s, backward simulation %.6f s (%s)", p, b, what)
        check(abs(p + b - t) <= 1e-6 * max(1., t), "parts-do-not-add-up", "filtering %.6f + backward simulation %.6f, total %.6f s (%s)", p, b, t, what)
        if spec["case"]["filter"] == "boot" and not case["compiled"]:
            f = [r.at[e["tick"]] for e in r.events if e["cb"] in FILTER_CB]
            g = [r.at[e["tick"]] for e in r.events if e["cb"] == "transition_potential"]
            if f and g and f[-1] < g[0]:
                check(p >= f[-1] - f[0] - tol, "filter-part-too-short", "filtering part %.6f s, the filter ran %.6f s (%s)", p, f[-1] - f[0], what)
                check(p <= g[0] - r.t0 + tol, "filter-part-too-long", "filtering part %.6f s, backward simulation began after %.6f s (%s)", p, g[0] - r.t0, what)
                check(b >= g[-1] - g[0] - tol, "backward-part-too-short", "backward part %.6f s, backward simulation ran %.6f s (%s)", b, g[-1] - g[0], what)
                check(b <= r.t1 - f[-1] + tol, "backward-part-too-long", "backward part %.6f s, since filtering finished %.6f s passed (%s)", b, r.t1 - f[-1], what)
    return t, ffbsi


def run(case, o):
    spec, ck = case["work"], case["clock"]
    keys = [random.fold_in(key_of(case["key"]), j) for j in range(case["runs"])]
    # plain clock: reference values, length of the timeline, places where the clock is read
    plain = seams.SimClock(per_tick=ck["per_tick"], start=1.6e9)
    ref = once(case, keys[0], plain, o)
    judge(case, ref, plain)
    total, reads = plain.n, plain.reads or [1]
    jumps = []
    for where, delta, stall in ck["jumps"]:
        at = int(where[1] * total * case["runs"]) if where[0] == "frac" else reads[min(where[1], len(reads) - 1)] + where[2]
        jumps.append((max(1, at), delta, stall))
    clock = seams.SimClock(per_tick=ck["per_tick"], start=ck["start"], jumps=jumps, drift=ck["drift"], device=ck["device"])
    runs, durs = [], []
    for j, k in enumerate(keys):
        r = once(case, k, clock, o)
        t, ffbsi = judge(case, r, clock)
        runs.append(r)
        durs.append(t)
    d = zoo.diff(runs[0].rec, ref.rec)
    check(d is None, "clock-changes-values", "%s: with clock steps %s the records differ: %s", spec["fam"], clock.jlog, d)
    for n, dl, st in clock.jlog:
        if dl:
            o.bump("fault:clock stepped " + ("back" if dl < 0 else "forward"))
        if st:
            o.bump("fault:stall")
    if ck["drift"]:
        o.bump("fault:clock drift")
    if ck["device"]:
        o.bump("fault:asynchronous device")
    o.bump("sim_time", clock.total - 1000.)
    # chaining
    if len(runs) > 1:
        names = ["time"] + (["pf_time", "bsi_time"] if ffbsi else [])
        each = {nm: [seconds(r, nm) for r in runs] for nm in names}
        acc = runs[0].res
        for r in runs[1:]:
            if case["reload"]:
                acc = reload(acc)
                o.bump("probe:chained after reload")
            acc = acc + r.res
        for nm in names:
            got = np.asarray(getattr(acc, nm, np.nan))
            check(got.shape == () and abs(float(got) - sum(each[nm])) <= 1e-6 * max(1., sum(each[nm])), "chained-duration",
                  "%s: %s of results chained is %s, their %ss are %s", spec["fam"], nm, got, nm, each[nm])
            check([seconds(r, nm) for r in runs] == each[nm], "chaining-altered-duration", "chaining altered the %s of a result", nm)
        o.bump("probe:chained")
    o.fp = fingerprint(spec["fam"], [round(d, 9) for d in durs], clock.jlog, clock.reads)
    o.nontrivial = bool(clock.jlog or ck["drift"] or ck["device"])


def reload(res):
    d = tempfile.mkdtemp(prefix="mocat-sim-clock-")
    try:
        p = os.path.join(d, "r.cdict")
        res = res.copy()
        res.__dict__.pop("summary", None)      # may hold functions of the harness
        mocat.save_cdict(res, p)
        return mocat.load_cdict(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)
