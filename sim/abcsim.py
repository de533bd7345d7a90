"""C07, C08 and the ABC part of C05: approximate Bayesian computation with failing simulators."""
import numpy as np
import jax.numpy as jnp
from jax import random
import mocat
from mocat.abc import VanillaABC, ImportanceABC, RandomWalkABC, RMMetropolisDiagStepsize, MetropolisedABCSMCSampler
import seams
import shr
import mcmc
from engine import fingerprint
from world import ABCTarget, gen_abc, DrawPlan, gen_draws, T, check, close, same, key_of, draws, Violation


class GaussImportance(ImportanceABC):
    """Importance ABC with a Gaussian proposal (the documented extension point)."""
    name = "sim importance abc"

    def __init__(self, threshold, scale):
        super().__init__()
        self.parameters.threshold = threshold
        self.scale = scale

    def importance_proposal(self, abc_scenario, random_key):
        return self.scale * random.normal(random_key, (abc_scenario.dim,))

    def importance_potential(self, abc_scenario, x):
        return 0.5 * jnp.sum(x ** 2) / self.scale ** 2


def gen(prop, rng, i, tier):
    big = tier == "thorough"
    compiled = rng.random() < 0.12
    c = {"prop": prop, "key": rng.randrange(1 << 30), "compiled": compiled, "abc": True}
    if prop == "C08":
        n = rng.randint(3, 9 if not big else 16)
        c.update(kind="smc", n=n, mcmc_steps=rng.choice([1, 1, 2, 3]), max_iter=rng.randint(1, 6 if not big else 12),
                 retain=rng.choice([0.9, 0.7, 0.95, 0.5, 1.]), resample=rng.choice([0.5, 0.3, 0.9, 1., 0.]),
                 termination=rng.choice([0., 0.01, 0.3, 0.6]), stepsize=rng.choice([None, 0.05, 0.5, 2.]))
        if rng.random() < 0.45:
            k = rng.randint(1, 5)
            c["schedule"] = sorted([round(rng.choice([rng.uniform(0.3, 3.), rng.uniform(1., 20.)]), 2) for _ in range(k)], reverse=True)
            if rng.random() < 0.25:     # hardly lower, or no lower, than the one before
                j = rng.randrange(k)
                c["schedule"].insert(j + 1, max(round(c["schedule"][j] * rng.choice([1., 0.999, 0.99]), 6), *(c["schedule"][j + 1:] or [0.])))
        c["late"] = rng.random() < 0.2
        c["init"] = rng.random() < 0.2
        c["target"] = gen_abc(rng, compiled, 4 * n)
        c["draws"] = gen_draws(rng, 3 * n, 3 * n, 0.3) if not compiled else {"uniform": {}, "normal": {}}
        return c
    kind = rng.choice(["vanilla", "vanilla", "quantile", "quantile", "imp", "rw", "rw", "rw"]) if prop == "C07" else "rw"
    n = rng.randint(2, 30 if not big else 60)
    c.update(kind=kind, n=n, threshold=rng.choice(["inf", round(rng.uniform(0.1, 1.5), 2), round(rng.uniform(0.5, 6.), 2)]))
    c["target"] = gen_abc(rng, compiled, n)
    if kind == "quantile":
        c["rate"] = rng.choice([0.1, 0.5, 0.9, round(rng.uniform(0.02, 1.), 3), 1.])
    if kind == "imp":
        c["scale"] = rng.choice([0.5, 1.5])
    if kind == "rw":
        c["stepsize"] = round(10 ** rng.uniform(-2, 0.7), 3)
        c["corr"] = rng.choice(["met", "met", "rm", "diag"]) if prop == "C07" else rng.choice(["rm", "diag", "diag"])
        if c["corr"] != "met":
            if c["threshold"] == "inf":
                c["threshold"] = 3.
            c["rm"] = {"rm_stepsize_scale": rng.choice([1., 0.3, 3.]), "rm_stepsize_neg_exponent": rng.choice([2 / 3, 0.5, 1., 0.]),
                       "log_update": rng.random() < 0.8}
            if rng.random() < 0.5:
                c["rm"]["adapt_cut_off"] = rng.randint(0, n + 1)
        if c["corr"] == "diag":
            if rng.random() < 0.3:
                c["threshold"] = None
            if rng.random() < 0.3:
                c["stepsize"] = None
        if rng.random() < 0.3:
            c["init"] = [round(rng.uniform(-2, 2), 2) for _ in range(c["target"]["dim"])]
    c["draws"] = gen_draws(rng, n, n) if not compiled else {"uniform": {}, "normal": {}}
    if prop == "C07" and kind in ("vanilla", "imp", "rw") and c.get("corr", "met") == "met" and rng.random() < 0.3:
        c["tie"] = rng.randrange(n)     # the threshold is exactly a distance that occurs
    return c


def shrinks(case):
    yield from shr.candidates(
        case, ints=[("n", 2), ("mcmc_steps", 1), ("max_iter", 1), ("target.dim", 1)],
        lists=["target.faults.calls"] + (["schedule"] if len(case.get("schedule", [])) > 1 else []), dicts=["draws.uniform", "draws.normal"],
        sets=[("target.faults", {"mode": "none"}), ("target.noise", 0.), ("target.curve", 0.), ("late", False), ("compiled", False),
              ("init", None)])


def fl(x):
    return jnp.inf if x == "inf" else x


def run(case, o):
    f = case["target"]["faults"]
    if f["mode"] == "call" and not f.get("calls"):
        case["target"]["faults"] = {"mode": "none"}
    stay = None
    if case.get("tie") is not None:
        case, stay = tied(case, o)
    scen = ABCTarget(case["target"])
    with seams.Ctx(step=not case["compiled"], record=not case["compiled"]) as ctx:
        plan = DrawPlan(case["draws"])
        ctx.draw_hook = plan
        if case["kind"] == "smc":
            sampler, chain = run_smc(case, scen)
        else:
            sampler, chain = run_chain(case, scen)
    o.bump("ticks", ctx.ticks)
    for k, v in scen.faults.fired.items():
        o.bump("fault:simulator " + k, v)
    if plan.fired:
        o.bump("fault:extreme draw", plan.fired)
    ups = ctx.stats.get("updates", [])
    if case["kind"] == "smc":
        check_smc(case, scen, sampler, chain, ups, ctx, o)
    else:
        check_records(case, scen, sampler, chain, ctx, o)
        if case["kind"] == "rw":
            check_moves(case, scen, chain, ups, ctx, o)
            if stay is not None:
                v = np.asarray(chain.value, float)
                check(np.all(v[1:stay + 1] == v[0]), "moved-at-threshold", "moved to a proposal whose distance is exactly the threshold %r: %s", case["threshold"], v[:stay + 1])
            if case["prop"] == "C05":
                check_tuning(case, scen, chain, o)
    v = np.asarray(chain.value, float)
    o.fp = fingerprint(case["kind"], case.get("corr"), np.round(v, 3).tolist(), np.isnan(np.asarray(chain.distance)).tolist())
    o.nontrivial = v.shape[0] > 1


def tied(case, o):
    """The same case with its threshold put exactly on one of the distances it meets."""
    scen = ABCTarget(case["target"])
    with seams.Ctx(step=not case["compiled"], record=not case["compiled"]) as ctx:
        ctx.draw_hook = DrawPlan(case["draws"])
        _, chain = run_chain(dict(case, threshold="inf"), scen)
    dist, v = np.asarray(chain.distance), np.asarray(chain.value)
    k = case["tie"] % len(dist)
    if case["kind"] == "rw":        # the first state the chain moves to when nothing is too far
        moved = [i for i in range(1, len(v)) if np.any(v[i] != v[0])]
        if not moved:
            return case, None
        k = moved[0]
    if not np.isfinite(dist[k]):
        return case, None
    o.bump("probe:threshold equal to a distance")
    return dict(case, threshold=float(dist[k])), k if case["kind"] == "rw" else None


# ------------------------------------------------------------------ chains
def make_chain(case):
    thr = fl(case["threshold"])
    kw = {}
    if case["kind"] == "vanilla":
        s = T(VanillaABC)(threshold=thr)
    elif case["kind"] == "quantile":
        s = T(VanillaABC)(acceptance_rate=case["rate"])
    elif case["kind"] == "imp":
        s = T(GaussImportance)(thr, case["scale"])
    else:
        s = T(RandomWalkABC)(threshold=thr, stepsize=case["stepsize"])
        if case["corr"] == "met":
            kw["correction"] = mocat.Metropolis
        elif case["corr"] == "rm":
            kw["correction"] = mocat.RMMetropolis(**case["rm"])
        else:
            kw["correction"] = RMMetropolisDiagStepsize(**case["rm"])
    return s, kw


def run_chain(case, scen):
    s, kw = make_chain(case)
    if case.get("init") is not None:
        d = case["target"]["dim"]
        kw["initial_state"] = mocat.cdict(value=jnp.array((case["init"] * d)[:d], jnp.float32))
    chain = mocat.run(scen, s, case["n"], key_of(case["key"]), **kw)
    return s, chain


def belongs(case, scen, x, data, ctx, what):
    """The simulated data came from the simulator at position x."""
    if case["compiled"]:
        if scen.near_region_edge(x):
            return
        w = scen.np_sim(x)
        check(close(data, w, 1e-3, mcmc.scale_tol(x, 1e-3)), "data-not-of-position", "%s at %s holds data %s, the simulator gives %s there", what, x, data, w)
        return
    if not hasattr(ctx, "_sims"):
        ctx._sims = [(np.ravel(e["x"]), np.ravel(e["out"])) for e in ctx.events if e["cb"] == "likelihood_sample" and e["x"] is not None and e["out"] is not None]
    for ex, eo in ctx._sims:
        if close(ex, x, 1e-6, 1e-6) and close(eo, data, 1e-6, 1e-6):
            return
    raise Violation("data-not-of-position", f"{what} at {x} holds data {data}, no simulator call at that position produced it")


def dist_of(case, data):
    with np.errstate(all="ignore"):
        return float(np.sqrt(np.sum((np.asarray(data, float) - np.asarray(case["target"]["data"], float)) ** 2)))


def same_dist(got, w):
    return (np.isnan(got) and np.isnan(w)) or got == w or abs(got - w) <= 1e-4 * (1 + abs(w))


def quantile_bounds(dist, q):
    """Interval the q-quantile of distances (failed = infinite) may lie in."""
    s = np.sort(np.where(np.isnan(dist), np.inf, np.asarray(dist, float)))
    pos = min(max(q, 0.), 1.) * (len(s) - 1)
    eps = 1e-5 * len(s)

    def at(p):
        a, b = int(np.floor(p)), int(np.ceil(p))
        if not np.isfinite(s[b]) and not (a == b and np.isfinite(s[a])):     # anything that keeps the finite ones
            fin = s[:a + 1][np.isfinite(s[:a + 1])]
            return (np.max(fin) if len(fin) else -np.inf), np.inf
        if a == b:
            return s[a], s[a]
        v = s[a] + (p - a) * (s[b] - s[a])
        return v, v
    pts = [at(p) for p in (max(pos - eps, 0), pos, min(pos + eps, len(s) - 1))]
    lo_v, hi_v = min(p[0] for p in pts), max(p[1] for p in pts)
    t = 1e-4 * (1 + (abs(lo_v) if np.isfinite(lo_v) else 0))
    return lo_v - t if np.isfinite(lo_v) else lo_v, hi_v + t


def check_records(case, scen, sampler, chain, ctx, o):
    n, d = case["n"], case["target"]["dim"]
    v = np.asarray(chain.value, float)
    check(v.shape == (n, d), "record-count", "asked for %d records of dimension %d, got %s", n, d, v.shape)
    for k in ("simulated_data", "distance"):
        check(hasattr(chain, k) and np.asarray(getattr(chain, k)).shape[0] == n, "record-missing", "no %s for %d records", k, n)
    sd, dist = np.asarray(chain.simulated_data, float), np.asarray(chain.distance, float)
    for i in range(n):
        belongs(case, scen, v[i], sd[i], ctx, f"record {i}")
        check(same_dist(dist[i], dist_of(case, sd[i])), "distance", "record %d: distance %r, recorded data are at %r", i, dist[i], dist_of(case, sd[i]))
        if hasattr(chain, "prior_potential"):
            p = scen.np_prior(v[i])
            check(close(float(np.asarray(chain.prior_potential)[i]), p, 1e-3, mcmc.scale_tol(v[i])), "prior-potential", "record %d at %s: prior potential %r, position has %r",
                  i, v[i], float(np.asarray(chain.prior_potential)[i]), p)
    nfail = int(np.isnan(dist).sum())
    if nfail:
        o.bump("probe:failed simulation recorded", nfail)
    if case["kind"] in ("vanilla", "quantile", "imp"):
        lw = np.asarray(chain.log_weight, float)
        check(lw.shape == (n,), "record-missing", "log_weight has shape %s", lw.shape)
        check(not np.any(np.isnan(lw)), "weight-nan", "log weights %s for distances %s", lw, dist)
        if case["kind"] == "quantile":
            thr = float(np.asarray(sampler.parameters.threshold))
            lo, hi = quantile_bounds(dist, case["rate"])
            check(lo <= thr <= hi or (nfail and not np.isfinite(hi) and thr >= lo), "threshold-quantile", "threshold %r, the %r quantile of the distances %s lies in [%r, %r]",
                  thr, case["rate"], np.sort(dist), lo, hi)
        else:
            thr = float(np.float32(fl(case["threshold"])))
        for i in range(n):
            want = dist[i] < thr
            check((lw[i] > -np.inf) == want, "weight", "record %d: log weight %r at distance %r, threshold %r", i, lw[i], dist[i], thr)
            if want:
                w = 0.
                if case["kind"] == "imp":
                    w = -scen.np_prior(v[i]) + 0.5 * np.sum(v[i] ** 2) / case["scale"] ** 2
                check(abs(lw[i] - w) < 1e-3 * (1 + np.sum(v[i] ** 2) / case.get("scale", 1.) ** 2), "weight-value", "record %d: log weight %r, definition gives %r", i, lw[i], w)
        o.bump("probe:weighted", int((lw > -np.inf).sum()))
        o.bump("probe:unweighted", int((lw == -np.inf).sum()))


def abc_step(case, scen, rec, i, step, thr, ctx, o, prefix=""):
    d = case["target"]["dim"]
    x0, x1 = np.asarray(rec["in"]["value"], float), np.asarray(rec["out"]["value"], float)
    # a zero (or absorbed) increment moves to the same position with new data
    moved = not same(rec["in"]["value"], rec["out"]["value"]) or not same(rec["in"]["simulated_data"], rec["out"]["simulated_data"])
    evs = [e for e in ctx.events[rec["ev0"]:rec["ev1"]] if e["cb"] == "likelihood_sample" and e["x"] is not None]
    zu = mcmc.parse(ctx, rec, d)
    if zu is None or len(evs) != 1 or evs[0]["out"] is None:
        o.bump("probe:unparsed step")
        if moved:
            dd = float(np.asarray(rec["out"]["distance"]))
            check(dd < thr, prefix + "moved-outside", "step %s moved to distance %r, threshold %r", i, dd, thr)
        return
    z, u = zu
    xp = x0 + np.sqrt(np.asarray(step, float)) * z
    tol = 2e-4 * (1 + np.max(np.abs(xp)) + np.max(np.abs(x0)))
    check(close(np.ravel(evs[0]["x"]), xp, 0, tol), prefix + "proposal", "step %s from %s simulates at %s, the proposal is %s", i, x0, evs[0]["x"], xp)
    dp = dist_of(case, evs[0]["out"])
    p0, p1 = scen.np_prior(x0), scen.np_prior(xp)
    border = abs(dp - thr) < 1e-4 * (1 + abs(dp)) if np.isfinite(dp) else False
    if border:
        o.bump("probe:borderline distance skipped")
        return
    hit = bool(dp < thr)
    a = min(1., np.exp(min(p0 - p1, 50))) if hit else 0.
    if u is None:
        o.bump("probe:unparsed decision")
        check(hit or not moved, prefix + "moved-outside", "step %s moved with proposed distance %r, threshold %r", i, dp, thr)
        return
    got = rec["out"].get("alpha")
    atol = a * 1e-4 * (1 + abs(p0) + abs(p1))
    if got is not None:
        check(abs(float(got) - a) <= atol + 1e-4, prefix + "alpha", "step %s: acceptance probability %r, definition gives %r (distance %r, threshold %r, prior potentials %r -> %r)",
              i, float(got), a, dp, thr, p0, p1)
    if a > 0 and abs(u - a) <= atol and not (a == 1. and p0 - p1 > 1e-3):
        o.bump("probe:borderline decision skipped")
        return
    o.bump("probe:step refined")
    if u < a:
        check(close(x1, xp, 0, tol), prefix + "accept", "step %s from %s: at %s, should have moved to %s (u=%r alpha=%r)", i, x0, x1, xp, u, a)
        check(close(np.ravel(rec["out"]["simulated_data"]), np.ravel(evs[0]["out"]), 1e-6, 1e-6), prefix + "kept-together", "step %s moved to %s with data %s, simulated %s",
              i, x1, rec["out"]["simulated_data"], evs[0]["out"])
        o.bump("probe:accepted")
    else:
        check(close(x1, x0, 0, 1e-6), prefix + "reject", "step %s from %s: moved to %s although u=%r >= alpha=%r (distance %r, threshold %r)", i, x0, x1, u, a, dp, thr)
        for k in ("simulated_data", "distance", "prior_potential"):
            if k in rec["in"]:
                check(close(rec["in"][k], rec["out"][k], 1e-6, 1e-6), prefix + "kept-together", "step %s stays at %s but %s went from %s to %s", i, x0, k, rec["in"][k], rec["out"][k])
        if not hit and p0 > p1:
            o.bump("probe:rejected by distance")
        if u == 0. and a == 0.:
            o.bump("probe:u=0 at alpha=0")


def check_moves(case, scen, chain, ups, ctx, o):
    n = case["n"]
    v, dist = np.asarray(chain.value, float), np.asarray(chain.distance, float)
    sd = np.asarray(chain.simulated_data, float)
    adaptive = case["corr"] != "met"
    thrs = np.asarray(chain.threshold, float) if adaptive else None
    steps = np.asarray(chain.stepsize, float) if case["corr"] == "diag" else None
    if case.get("init") is not None:
        check(close(v[0], (case["init"] * len(v[0]))[:len(v[0])], 1e-6, 1e-6), "first-record", "first record %s, initial state %s", v[0], case["init"])
    for i in range(1, n):
        thr = float(thrs[i - 1]) if adaptive else float(np.float32(fl(case["threshold"])))
        if not same(v[i], v[i - 1]) or not same(sd[i], sd[i - 1]):
            check(dist[i] < thr or close(dist[i], thr, 1e-5, 1e-6), "moved-outside", "state %d moved to a distance of %r, threshold %r", i, dist[i], thr)
            check(np.all(np.isfinite(sd[i])) and np.isfinite(dist[i]), "moved-to-failed", "state %d moved to failed simulation %s", i, sd[i])
    if case["compiled"] or len(ups) != n - 1:
        return
    for i, rec in enumerate(ups, 1):
        check(close(rec["in"]["value"], v[i - 1], 1e-6, 1e-6) and close(rec["out"]["value"], v[i], 1e-6, 1e-6), "chain-broken", "step %d goes %s -> %s, records %s -> %s",
              i, rec["in"]["value"], rec["out"]["value"], v[i - 1], v[i])
        thr = float(thrs[i - 1]) if adaptive else float(np.float32(fl(case["threshold"])))
        step = steps[i - 1] if steps is not None else case["stepsize"]
        if np.all(np.isfinite(step)) and np.all(np.asarray(step) > 0) and not np.isnan(thr):
            abc_step(case, scen, rec, i, step, thr, ctx, o)


def check_tuning(case, scen, chain, o):
    n, d = case["n"], case["target"]["dim"]
    check(hasattr(chain, "threshold"), "tuning-missing", "chain does not record the threshold")
    thr, alpha = np.asarray(chain.threshold, float), np.asarray(chain.alpha, float)
    check(thr.shape == (n,), "tuning-missing", "threshold has shape %s", thr.shape)
    start = case["threshold"]
    start = 50. if start is None else start
    check(close(thr[0], start, 1e-5, 0), "tuning-start", "threshold starts at %r, expected %r", thr[0], start)
    rm = case["rm"]
    cut = rm.get("adapt_cut_off", np.inf)
    v = np.asarray(chain.value, float)
    if case["corr"] == "diag":
        st = np.asarray(chain.stepsize, float)
        check(st.shape == (n, d), "tuning-missing", "stepsize has shape %s", st.shape)
        s0 = 1. if case["stepsize"] is None else case["stepsize"]
        check(close(st[0], np.ones(d) * s0, 1e-4, 0), "tuning-start", "stepsize starts at %s, expected %r", st[0], s0)
        cov, mean = np.ones(d) * s0 * d / 2.38 ** 2, v[0].copy()
    for i in range(1, n):
        g = rm["rm_stepsize_scale"] * float(i) ** -rm["rm_stepsize_neg_exponent"]
        if i <= cut:
            with np.errstate(all="ignore"):
                want = np.exp(np.log(thr[i - 1]) - g * (alpha[i] - 0.1)) if rm["log_update"] else thr[i - 1] - g * (alpha[i] - 0.1)
        else:
            want = thr[i - 1]
            o.bump("probe:after cut-off")
        if np.isfinite(want) and abs(want) < 1e30:
            check(close(thr[i], want, 2e-4, 1e-6 if not rm["log_update"] else 0), "tuning-recursion", "state %d: threshold %r, recursion from %r with alpha %r gives %r", i, thr[i], thr[i - 1], alpha[i], want)
        if case["corr"] == "diag":
            if i <= cut:
                w = min(g, 1 - 1e-3)
                cov = (1 - w) * cov + w * (v[i] - mean) ** 2
                mean = (1 - w) * mean + w * v[i]
            ref = cov / d * 2.38 ** 2
            check(close(st[i], ref, 3e-3, 1e-5 * (1 + np.max(np.abs(v)) ** 2)), "tuning-diag", "state %d: stepsizes %s, running variance gives %s", i, st[i], ref)
            o.bump("probe:diag recursion")


# ------------------------------------------------------------------ SMC
def make_smc(case):
    kw = dict(mcmc_steps=case["mcmc_steps"], ess_threshold_retain=case["retain"], ess_threshold_resample=case["resample"],
              termination_alpha=case["termination"])
    sched = case.get("schedule")
    if sched is None:
        kw["max_iter"] = case["max_iter"]
    elif not case["late"]:
        kw["threshold_schedule"] = jnp.array(sched)
    if case["stepsize"] is None:
        s = T(MetropolisedABCSMCSampler)(**kw)
        s.mcmc_sampler = T(RandomWalkABC)()
    else:
        s = T(MetropolisedABCSMCSampler)(T(RandomWalkABC)(stepsize=case["stepsize"]), **kw)
    if sched is not None and case["late"]:
        s.threshold_schedule = jnp.array(sched)
    return s, {}


def run_smc(case, scen):
    s, _ = make_smc(case)
    init = None
    n, d = case["n"], case["target"]["dim"]
    if case["init"]:
        r = np.random.default_rng(case["key"])
        init = mocat.cdict(value=jnp.array(r.normal(size=(n, d)), jnp.float32))
    chain = mocat.run(scen, s, n, key_of(case["key"]), initial_state=init)
    return s, chain


def check_smc(case, scen, sampler, chain, ups, ctx, o):
    n, d = case["n"], case["target"]["dim"]
    st = {}
    for k in ("value", "simulated_data", "distance", "prior_potential", "log_weight", "ess", "threshold", "alpha"):
        check(hasattr(chain, k), "record-missing", "stages have no %s", k)
        st[k] = np.asarray(getattr(chain, k), float)
    Tn = st["value"].shape[0]
    for k in ("value", "simulated_data", "distance", "prior_potential", "log_weight"):
        check(st[k].shape[:2] == (Tn, n), "record-shape", "%s has shape %s for %d stages of %d particles", k, st[k].shape, Tn, n)
    check(st["ess"].shape == (Tn,) and st["threshold"].shape == (Tn,), "record-shape", "ess %s, threshold %s for %d stages", st["ess"].shape, st["threshold"].shape, Tn)
    lw, dist, thr, ess = st["log_weight"], st["distance"], st["threshold"], st["ess"]
    sched = case.get("schedule")
    max_iter = case["max_iter"] if sched is None else len(sched)
    check(Tn - 1 <= max_iter, "iteration-limit", "%d iterations, limit %d", Tn - 1, max_iter)
    outer = [u for u in ups if u["name"].endswith("SMCSampler")]
    alpha_mean = 1.
    for t in range(Tn):
        for j in range(n):
            what = f"stage {t} particle {j}"
            belongs(case, scen, st["value"][t, j], st["simulated_data"][t, j], ctx, what)
            w = dist_of(case, st["simulated_data"][t, j])
            check(same_dist(dist[t, j], w), "distance", "%s: distance %r, its data are at %r", what, dist[t, j], w)
            p = scen.np_prior(st["value"][t, j])
            check(close(st["prior_potential"][t, j], p, 1e-3, mcmc.scale_tol(st["value"][t, j])), "prior-potential", "%s: prior potential %r, position has %r", what, st["prior_potential"][t, j], p)
        # threshold
        check(not np.isnan(thr[t]), "threshold-nan", "stage %d: threshold is NaN (distances %s)", t, dist[t])
        resampled = None
        if t:
            e, lim = ess[t - 1], case["resample"] * n
            resampled = e < lim if abs(e - lim) > 1e-4 * n or e == lim or round(e) == lim else None
        if sched is not None:
            want = sched[min(t, len(sched) - 1)]
            check(close(thr[t], want, 1e-5, 0), "threshold-schedule", "stage %d: threshold %r, schedule has %r", t, thr[t], want)
        else:
            prev = thr[t - 1] if t else np.inf
            check(thr[t] <= prev * (1 + 1e-6), "threshold-rises", "stage %d: threshold %r after %r", t, thr[t], prev)
            if resampled is not None or t == 0:
                e = n if t == 0 or resampled else ess[t - 1]
                lo, hi = quantile_bounds(dist[t], case["retain"] * e / n)
                lo, hi = min(lo, prev), min(hi, prev)
                check(lo <= thr[t] * (1 + 1e-6) and thr[t] <= hi * (1 + 1e-6), "threshold-quantile", "stage %d: threshold %r, the %r quantile of distances %s lies in [%r, %r] (previous %r)",
                      t, thr[t], case["retain"] * e / n, np.sort(dist[t]), lo, hi, prev)
                o.bump("probe:adaptive threshold")
        for j in range(n):
            want = dist[t, j] <= thr[t]
            check((lw[t, j] > -np.inf) == want and not np.isnan(lw[t, j]), "weight", "stage %d particle %d: log weight %r at distance %r, threshold %r", t, j, lw[t, j], dist[t, j], thr[t])
        nfail = int(np.isnan(dist[t]).sum())
        if nfail:
            o.bump("probe:failed simulation in population", nfail)
        alive = int((lw[t] > -np.inf).sum())
        if alive == 0:
            o.bump("probe:population extinct")
            return
        w = np.exp(lw[t] - np.max(lw[t]))
        we = np.sum(w) ** 2 / np.sum(w ** 2)
        check(abs(ess[t] - we) < 1e-3 * n, "ess", "stage %d: effective sample size %r, weights give %r", t, ess[t], we)
        # stopping
        if t:
            prev_alive = np.ones(n, bool) if resampled else lw[t - 1] > -np.inf
            alpha_mean = float(np.mean(st["alpha"][t][prev_alive])) if resampled is not None else None
        if alpha_mean is not None and abs(alpha_mean - case["termination"]) > 1e-5 or alpha_mean == case["termination"] == 0.:
            stop = alpha_mean <= case["termination"] or t >= max_iter
            check(stop == (t == Tn - 1), "stopping", "stage %d of %d: mean acceptance %r (termination %r), limit %d: should %s", t, Tn, alpha_mean, case["termination"], max_iter,
                  "stop" if stop else "continue")
            if stop:
                o.bump("probe:stopped by acceptance" if t < max_iter else "probe:stopped by limit")
        if t == 0 or resampled is None:
            continue
        o.bump("probe:resampled" if resampled else "probe:not resampled")
        # ---- moves
        prevv = st["value"][t - 1]
        if not resampled:
            for j in range(n):
                if lw[t - 1, j] == -np.inf:
                    o.bump("probe:dead particle")
                    for k in ("value", "simulated_data", "distance"):
                        check(close(st[k][t, j], st[k][t - 1, j], 1e-6, 1e-6), "dead-moved", "stage %d particle %d has no weight but its %s went from %s to %s", t, j, k,
                              st[k][t - 1, j], st[k][t, j])
        if len(outer) != Tn - 1:
            continue
        rec = outer[t - 1]
        inner = [u for u in ups if not u["name"].endswith("SMCSampler") and rec["tape0"] <= u["tape0"] and u["tape1"] <= rec["tape1"]]
        K = case["mcmc_steps"]
        first = min([u["tape0"] for u in inner], default=rec["tape1"])
        if resampled and inner:
            check(any(not x["user"] for x in ctx.tape[rec["tape0"]:first]), "resample-when", "stage %d: nothing was drawn to resample with effective sample size %r, threshold %r",
                  t, ess[t - 1], case["resample"] * n)
        movers = list(range(n)) if resampled else [j for j in range(n) if lw[t - 1, j] > -np.inf]
        if not case["compiled"] and inner and movers and all(u["name"] == inner[0]["name"] for u in inner):
            if len(inner) == n * K:     # moves of particles without weight may be carried out and dropped
                inner = [inner[j * K + k] for j in movers for k in range(K)]
            check(len(inner) == len(movers) * K, "inner-steps", "stage %d: %d inner steps for %d particles with weight, %d each are configured", t, len(inner), len(movers), K)
        if len(inner) != len(movers) * K:
            o.bump("probe:inner steps not visible")
            for j in movers:
                x = st["value"][t, j]
                if not any(close(prevv[i], x, 1e-6, 1e-6) for i in range(n)):
                    check(dist[t, j] < thr[t - 1] * (1 + 1e-6), "inner-moved-outside", "stage %d particle %d moved to distance %r, previous threshold %r", t, j, dist[t, j], thr[t - 1])
            continue
        for m, j in enumerate(movers):
            x = np.asarray(inner[m * K]["in"]["value"], float)
            if resampled:
                hit = [i for i in range(n) if close(prevv[i], x, 1e-6, 1e-6)]
                check(hit, "parent", "stage %d particle %d starts from %s, not one of the previous particles", t, j, x)
                check(any(lw[t - 1, i] > -np.inf for i in hit), "parent-weight", "stage %d particle %d copies a particle without weight (distance %r, threshold %r)", t, j,
                      [dist[t - 1, i] for i in hit], thr[t - 1])
                sd0 = np.ravel(inner[m * K]["in"]["simulated_data"])
                check(any(close(st["simulated_data"][t - 1, i], sd0, 1e-6, 1e-6) for i in hit), "parent", "stage %d particle %d: data %s are not its parent's", t, j, sd0)
            else:
                check(close(x, prevv[j], 1e-6, 1e-6), "parent", "stage %d particle %d starts from %s without resampling, was at %s", t, j, x, prevv[j])
            for k in range(K):
                u = inner[m * K + k]
                check(close(u["in"]["value"], x, 1e-6, 1e-6), "inner-chain", "stage %d particle %d inner step %d starts from %s, should be at %s", t, j, k, u["in"]["value"], x)
                step = u["params"].get("stepsize")
                if step is not None and np.all(np.isfinite(step)) and np.all(np.asarray(step) > 0):
                    if case["stepsize"] is not None:
                        check(close(step, np.zeros_like(step) + case["stepsize"], 1e-4, 0), "stepsize-used", "stage %d uses stepsize %s, configured %r", t, step, case["stepsize"])
                    abc_step(case, scen, u, f"{t}.{j}.{k}", step, float(thr[t - 1]), ctx, o, "inner-")
                x = np.asarray(u["out"]["value"], float)
            check(close(x, st["value"][t, j], 1e-6, 1e-6), "inner-chain", "stage %d particle %d ends at %s, inner kernel ended at %s", t, j, st["value"][t, j], x)
    if alpha_mean is not None and Tn - 1 < max_iter and abs(alpha_mean - case["termination"]) > 1e-5:
        check(alpha_mean <= case["termination"], "stopping", "stopped after stage %d of %d with mean acceptance %r (termination %r)", Tn - 1, max_iter, alpha_mean, case["termination"])
