"""C06: tempered SMC under simulated draws and failing likelihood evaluations."""
import numpy as np
import jax.numpy as jnp
import mocat
from mocat.transport import MetropolisedSMCSampler, RMMetropolisedSMCSampler
import seams
import shr
import mcmc
from engine import fingerprint
from world import Target, gen_target, DrawPlan, gen_draws, T, check, close, same, key_of, Violation

INNER = mcmc.KINDS


def gen(prop, rng, i, tier):
    compiled = rng.random() < 0.12
    kind = rng.choice(["rw", "rw", "rw", "ud", "ud", "qn"]) if not compiled else rng.choice(["rw", "ud"])
    big = tier == "thorough"
    n = rng.randint(2, 8 if kind == "rw" else 5) if not big else rng.randint(2, 14 if kind == "rw" else 7)
    c = {"prop": prop, "kind": kind, "n": n, "key": rng.randrange(1 << 30), "compiled": compiled, "settings": {},
         "target": gen_target(rng, faults=True, compiled=True), "rm": rng.random() < 0.4, "init": rng.random() < 0.3}
    c["target"].pop("temperature", None)
    s = c["settings"]
    s["stepsize"] = round(10 ** rng.uniform(-1.5, 0.3), 3) if kind == "rw" else round(10 ** rng.uniform(-1.5, -0.2), 3)
    if kind != "rw":
        s["leapfrog_steps"] = rng.choice([1, 1, 2])
        s["friction"] = rng.choice([1., "inf", 0.3])
    if kind == "qn":
        s["m"] = 3
    c["smc"] = {"mcmc_steps": rng.choice([1, 1, 2, 3]) if kind != "qn" else 1,
                "ess_threshold_retain": rng.choice([0.9, 0.8, 0.5, 0.95]),
                "ess_threshold_resample": rng.choice([0.5, 0.3, 0.8, 1., 0.]), "max_bisection_iter": 300}
    if rng.random() < 0.5:
        k = rng.choice([1, 2, 3, 3, 4, 5])
        sched = sorted(round(rng.uniform(0.02, 1.), 3) for _ in range(k))
        for j in range(1, k):
            if sched[j] <= sched[j - 1]:
                sched[j] = round(sched[j - 1] + 0.05, 3)
        if rng.random() < 0.3:      # a last or middle step that is very small
            j = rng.randrange(k)
            e = round(sched[j] * (1 - rng.choice([0.009, 3e-3, 1e-3])), 7)
            if j == 0 or e > sched[j - 1]:
                sched.insert(j, e)
        if rng.random() < 0.2:      # a first step that is very small
            e = rng.choice([1e-3, 2e-4, 5e-3])
            sched = [e] + [x for x in sched if x > e]
        if rng.random() < 0.4:
            sched = [0.] + sched
        c["schedule"] = sched
    else:
        c["smc"]["max_iter"] = rng.choice([1, 2, 4, 6, 9])
        c["smc"]["max_temperature"] = rng.choice([1., 1., 0.3, 2.])
    if c["rm"]:
        c["smc"]["rm_stepsize"] = rng.choice([1., 0.5, 2.])
    c["draws"] = gen_draws(rng, 3 * n, 3 * n, 0.3) if not compiled else {"uniform": {}, "normal": {}}
    c["late"] = rng.random() < 0.2      # settings given after construction
    if rng.random() < 0.08:
        c["target"]["lik"] = "flat"
    return c


def shrinks(case):
    yield from shr.candidates(
        case, ints=[("n", 2), ("smc.mcmc_steps", 1), ("smc.max_iter", 1), ("settings.leapfrog_steps", 1), ("target.dim", 1)],
        lists=["schedule"] if len(case.get("schedule", [])) > 1 else [], dicts=["draws.uniform", "draws.normal"],
        sets=[("target.faults", {"mode": "none"}), ("kind", "rw"), ("rm", False), ("init", False), ("compiled", False), ("late", False),
              ("target.lik", "gauss")])


def build(case):
    s = {k: (jnp.inf if v == "inf" else v) for k, v in case["settings"].items()}
    if case["kind"] == "rw":
        s = {"stepsize": s["stepsize"]}
    inner = T(INNER[case["kind"]])(**s)
    cls = RMMetropolisedSMCSampler if case["rm"] else MetropolisedSMCSampler
    kw = {k: v for k, v in case["smc"].items() if k != "rm_stepsize" or case["rm"]}
    sched = case.get("schedule")
    if sched is not None:
        kw.pop("max_iter", None)
        kw.pop("max_temperature", None)
        if not case["late"]:
            kw["temperature_schedule"] = jnp.array(sched)
    sampler = T(cls)(inner, **kw)
    if sched is not None and case["late"]:
        sampler.temperature_schedule = jnp.array(sched)
    return sampler, inner


def run(case, o):
    scen = Target(case["target"])
    sampler, inner = build(case)
    n, d = case["n"], case["target"]["dim"]
    init = None
    if case["init"]:
        r = np.random.default_rng(case["key"])
        init = mocat.cdict(value=jnp.asarray(r.normal(size=(n, d)), jnp.float32))
    with seams.Ctx(step=not case["compiled"], record=not case["compiled"]) as ctx:
        plan = DrawPlan(case["draws"])
        ctx.draw_hook = plan
        chain = mocat.run(scen, sampler, n, key_of(case["key"]), initial_state=init)
    o.bump("ticks", ctx.ticks)
    if plan.fired:
        o.bump("fault:extreme draw", plan.fired)
    ups = ctx.stats.get("updates", [])
    st = stages(case, chain)
    check_account(case, scen, sampler, chain, st, o)
    if not case["compiled"]:
        check_moves(case, scen, sampler, inner, chain, st, ups, ctx, o)
    o.fp = fingerprint(case["kind"], case["rm"], case.get("schedule"), case["smc"], np.round(st["temperature"], 4).tolist(),
                       np.round(st["ess"], 2).tolist(), np.round(st["value"], 3).tolist())
    o.nontrivial = len(st["temperature"]) > 1


def stages(case, chain):
    out = {}
    for k in ("value", "temperature", "log_weight", "ess", "log_norm_constant", "likelihood_potential", "prior_potential",
              "potential", "grad_potential", "stepsize", "alpha", "grad_prior_potential", "grad_likelihood_potential"):
        if hasattr(chain, k):
            out[k] = np.asarray(getattr(chain, k), float)
    for k in ("value", "temperature", "log_weight", "ess", "log_norm_constant", "likelihood_potential", "potential"):
        check(k in out, "record-missing", "stages have no %s", k)
    return out


def lse(a):
    a = np.asarray(a, float)
    m = np.max(a)
    return -np.inf if m == -np.inf else m + np.log(np.sum(np.exp(a - m)))


def log_ess(lw):
    return 2 * lse(lw) - lse(2 * np.asarray(lw, float))


def step_weight(dT, lik):
    """Log weight increment; a particle at an impossible position (infinite or undefined potential) is lost."""
    lik = np.asarray(lik, float)
    dead = ~np.isfinite(lik) & ~(lik == -np.inf)
    with np.errstate(all="ignore"):
        return np.where(dead, -np.inf, -dT * np.where(dead, 0., lik))


def resampled_at(case, st, t):
    """Was the population resampled on the way to stage t?  None if borderline."""
    n = case["n"]
    e, thr = st["ess"][t - 1], case["smc"]["ess_threshold_resample"] * n
    if abs(e - thr) < 1e-4 * n and not (e == thr):
        return None
    return e <= thr


def population_lost(scen, st, t):
    """No particle that had weight before stage t is at a position where the likelihood can be evaluated."""
    n = st["value"].shape[1]
    alive = [j for j in range(n) if np.all(np.isfinite(st["value"][t, j])) and np.isfinite(scen.np_lik(st["value"][t, j]))]
    if t and not np.any(np.isfinite(st["log_weight"][t - 1])):
        return True
    if t and np.any(np.isfinite(st["log_weight"][t])):
        return False
    if t:
        alive = [j for j in alive if np.isfinite(st["log_weight"][t - 1, j])]
    return not alive


def check_account(case, scen, sampler, chain, st, o):
    n, d = case["n"], case["target"]["dim"]
    temp = st["temperature"]
    Tn = len(temp)
    for k in ("value", "log_weight", "likelihood_potential", "potential"):
        check(st[k].shape[:2] == (Tn, n), "record-shape", "%s has shape %s for %d stages of %d particles", k, st[k].shape, Tn, n)
    for k in ("ess", "log_norm_constant"):
        check(st[k].shape == (Tn,), "record-shape", "%s has shape %s for %d stages", k, st[k].shape, Tn)
    sched = case.get("schedule")
    retain = case["smc"]["ess_threshold_retain"]
    extinct = next((t for t in range(Tn) if population_lost(scen, st, t)), None)
    if extinct is not None:
        o.bump("probe:population extinct")
        if extinct == 0:
            return
        Tn = extinct
        for k in st:
            st[k] = st[k][:Tn]
        temp = st["temperature"]
    if sched is not None:
        want = [s for j, s in enumerate(sched) if not (j == 0 and s == 0.)]
        if not want:
            return
        mx = want[-1]
        check(Tn <= len(want) and close(temp, want[:Tn], 1e-5, 1e-6), "temperature-schedule", "temperatures %s, schedule %s", temp, want)
        max_iter = len(want)
    else:
        mx = case["smc"]["max_temperature"]
        max_iter = case["smc"]["max_iter"]
    alive = np.isfinite(temp).all()
    check(alive, "temperature-nan", "temperatures %s", temp)
    check(np.all(temp <= mx * (1 + 1e-5)), "temperature-range", "temperatures %s exceed %r", temp, mx)
    check(np.all(np.diff(temp) >= -1e-6), "temperature-order", "temperatures %s not increasing", temp)
    # ---- stopping
    nanfrac = np.isnan(st["value"]).mean(axis=(1, 2))
    for t in range(Tn - 1):
        check(temp[t] < mx - 1e-7 or close(temp[t], mx, 0, 1e-7) and temp[t] < np.float32(mx), "stops-late",
              "went on after stage %d at temperature %r (max %r)", t, temp[t], mx)
    last_ok = extinct is not None or temp[-1] >= np.float32(mx) - 1e-7 or Tn - 1 >= max_iter or nanfrac[-1] > 0.1
    check(last_ok, "stops-early", "stopped after stage %d at temperature %r (max %r, limit %d)", Tn - 1, temp[-1], mx, max_iter)
    check(Tn - 1 <= max_iter, "iteration-limit", "%d iterations, limit %d", Tn - 1, max_iter)
    check(extinct is not None or float(np.asarray(scen.temperature)) == np.float32(temp[-1]) or close(float(np.asarray(scen.temperature)), temp[-1], 1e-6, 0),
          "scenario-temperature", "scenario left at temperature %r, last stage %r", scen.temperature, temp[-1])
    # ---- per stage
    lik, lw = st["likelihood_potential"], st["log_weight"]
    prev_T = 0.
    for t in range(Tn):
        edge = [scen.near_region_edge(st["value"][t, j]) for j in range(n)]
        ltol = np.zeros(n)
        for j in range(n):
            x = st["value"][t, j]
            if edge[j] or not np.all(np.isfinite(x)):
                continue
            p, l = scen.np_prior(x), scen.np_lik(x)
            T_eval = temp[t - 1] if t else 1.
            ltol[j] = mcmc.scale_tol(x) + (3e-6 * (1 + abs(p) + abs(T_eval * l if np.isfinite(l) else 0)) / max(T_eval, 1e-9))
            got = lik[t, j]
            if not np.isfinite(l):
                check(not np.isfinite(got), "likelihood-mismatch", "stage %d particle %d at %s: likelihood %r, position has %r", t, j, x, got, l)
                o.bump("fault:particle at failing likelihood")
            else:
                check(abs(got - l) <= ltol[j] + 1e-3 * abs(l), "likelihood-mismatch", "stage %d particle %d at %s: likelihood %r, position has %r", t, j, x, got, l)
                pt = p + temp[t] * l
                check(abs(st["potential"][t, j] - pt) <= (ltol[j] + 1e-3 * abs(l)) * (1 + temp[t]) + 1e-3 * abs(p), "potential-mismatch",
                      "stage %d particle %d: potential %r, tempered potential is %r", t, j, st["potential"][t, j], pt)
                if "grad_potential" in st and case["kind"] != "rw":
                    g = np.asarray(scen.np_gprior(x)) + temp[t] * np.asarray(scen.np_glik(x))
                    check(close(st["grad_potential"][t, j], g, 2e-3, mcmc.scale_tol(x, 5e-4)), "gradient-mismatch",
                          "stage %d particle %d: gradient %s, tempered gradient is %s", t, j, st["grad_potential"][t, j], g)
        # ---- weights
        if t == 0:
            base, rs, e_prev, z_prev = np.zeros(n), False, float(n), np.log(n)
            prevlogz = 0.
        else:
            rs = resampled_at(case, st, t)
            if rs is None:
                o.bump("probe:borderline resample skipped")
                prev_T = temp[t]
                continue
            base = np.zeros(n) if rs else lw[t - 1]
            e_prev = float(n) if rs else st["ess"][t - 1]
            z_prev = np.log(n) if rs else lse(lw[t - 1])
            prevlogz = st["log_norm_constant"][t - 1]
            o.bump("probe:resampled" if rs else "probe:not resampled")
        dT = temp[t] - prev_T
        want = base + step_weight(dT, lik[t])
        if not np.any(np.isfinite(want)):
            o.bump("probe:population extinct")
            return
        for j in range(n):
            ok = (want[j] == lw[t, j]) or abs(want[j] - lw[t, j]) <= 1e-4 + 1e-4 * abs(want[j])
            check(ok, "log-weight", "stage %d particle %d: log weight %r, account gives %r (previous %r, resampled %s, temperature step %r, likelihood %r)",
                  t, j, lw[t, j], want[j], None if t == 0 else lw[t - 1, j], rs, dT, lik[t, j])
        le = log_ess(lw[t])
        check(abs(np.log(st["ess"][t]) - le) < 1e-3, "ess", "stage %d: effective sample size %r, weights give %r", t, st["ess"][t], np.exp(le))
        wantz = prevlogz + lse(lw[t]) - z_prev
        check(abs(st["log_norm_constant"][t] - wantz) < 1e-3 * (1 + abs(wantz) + np.max(np.abs(lw[t][np.isfinite(lw[t])]))), "log-norm-constant",
              "stage %d: %r, weights give %r", t, st["log_norm_constant"][t], wantz)
        # ---- adaptive temperatures
        if sched is None:
            lt = np.log(retain) + log_ess(base + step_weight(0., lik[t]))
            with np.errstate(all="ignore"):
                got = log_ess(base + step_weight(dT, lik[t]))
                at_max = log_ess(base + step_weight(mx - prev_T, lik[t]))
            tol = 5e-3
            if temp[t] >= np.float32(mx) - 1e-6:
                check(got >= lt - tol, "temperature-step", "stage %d: jumped to the maximum %r keeping %r of %r effective particles (asked %r)",
                      t, mx, np.exp(got), e_prev, retain)
                o.bump("probe:adaptive step to max")
            elif at_max > lt + tol:
                # all of the remaining way keeps enough: a crossing in between is the only excuse
                ts = np.linspace(0, mx - prev_T, 400)
                low = min(log_ess(base + step_weight(x, lik[t])) for x in ts)
                check(low < lt + tol, "temperature-stuck", "stage %d: stopped at temperature %r although going to %r keeps %r of %r effective particles (asked %r)",
                      t, temp[t], mx, np.exp(at_max), e_prev, retain)
            else:
                check(abs(got - lt) < 2e-3, "temperature-step", "stage %d: step %r from temperature %r keeps %r of %r effective particles (asked %r)",
                      t, dT, prev_T, np.exp(got), e_prev, retain)
                o.bump("probe:adaptive step refined")
        # ---- stepsize
        if case["rm"]:
            check("stepsize" in st and st["stepsize"].shape == (Tn,), "stepsize-missing", "stages record no stepsize per stage")
            if t == 0:
                check(close(st["stepsize"][0], case["settings"]["stepsize"], 1e-4, 0), "stepsize-start", "stepsize starts at %r", st["stepsize"][0])
            else:
                w = np.exp(lw[t] - lse(lw[t]))
                a = float(np.sum(w * st["alpha"][t]))
                target = {"rw": 0.234, "ud": 0.651, "qn": 0.651}[case["kind"]]
                want = st["stepsize"][t - 1] * np.exp(case["smc"].get("rm_stepsize", 1.) * (a - target))
                check(close(st["stepsize"][t], want, 2e-3, 0), "stepsize-recursion", "stage %d: stepsize %r, recursion gives %r (mean acceptance %r)",
                      t, st["stepsize"][t], want, a)
        prev_T = temp[t]


def check_moves(case, scen, sampler, inner, chain, st, ups, ctx, o):
    n, d, K = case["n"], case["target"]["dim"], case["smc"]["mcmc_steps"]
    outer = [u for u in ups if u["name"].endswith("SMCSampler")]
    if len(outer) != len(st["temperature"]) - 1:
        o.bump("probe:updates not one per stage")
        return
    sub = dict(case, corr="met")
    for t, rec in enumerate(outer, 1):
        lw = np.asarray(rec["in"]["log_weight"], float)
        vals = np.asarray(rec["in"]["value"], float)
        if not np.any(np.isfinite(lw)):
            return
        steps = [u for u in ups if u["name"] not in ("MetropolisedSMCSampler", "RMMetropolisedSMCSampler")
                 and rec["tape0"] <= u["tape0"] and u["tape1"] <= rec["tape1"]]
        first = min([u["tape0"] for u in steps], default=rec["tape1"])
        pre = ctx.tape[rec["tape0"]:first]
        cat = [x for x in pre if x["op"] in ("categorical", "choice")]
        rs = resampled_at(case, st, t)
        if rs is None:
            continue
        idx = None
        if rs:
            check(any(not x["user"] for x in pre), "resample-when", "stage %d: nothing was drawn to resample with effective sample size %r, threshold %r", t,
                  st["ess"][t - 1], case["smc"]["ess_threshold_resample"] * n)
        if cat and rs:      # a draw made but not used is not judged
            idx = np.ravel(np.asarray(cat[-1]["out"]))
            if cat[-1]["op"] == "categorical" and len(cat[-1]["args"]) and np.asarray(cat[-1]["args"][0]).shape == lw.shape:
                lg = np.asarray(cat[-1]["args"][0], float)
                a, b = np.exp(lg - lse(lg)), np.exp(lw - lse(lw))
                check(close(a, b, 1e-3, 1e-4), "resample-weights", "stage %d: resampled with weights %s, particles have %s", t, a, b)
        if steps and all(u["name"] == steps[0]["name"] for u in steps):
            check(len(steps) == n * K, "inner-steps", "stage %d: %d inner steps for %d particles, %d each are configured", t, len(steps), n, K)
        if len(steps) != n * K:
            o.bump("probe:inner steps not visible")
            continue
        temp = float(st["temperature"][t - 1])
        for j in range(n):
            x = np.asarray(steps[j * K]["in"]["value"], float)
            if rs:
                hit = [i for i in range(n) if close(vals[i], x, 1e-6, 1e-6)]
                check(hit, "parent", "stage %d particle %d starts from %s, not one of the previous particles", t, j, x)
                check(any(lw[i] > -np.inf for i in hit), "parent-weight", "stage %d particle %d starts from a particle without weight", t, j)
                if idx is not None and idx.shape == (n,):
                    check(idx[j] in hit, "parent", "stage %d particle %d starts from %s, drawn parent was %d at %s", t, j, x, idx[j], vals[idx[j]])
            else:
                check(close(x, vals[j], 1e-6, 1e-6), "parent", "stage %d particle %d starts from %s without resampling, was at %s", t, j, x, vals[j])
            for k in range(K):
                u = steps[j * K + k]
                if k:
                    check(close(u["in"]["value"], x, 1e-6, 1e-6), "inner-chain", "stage %d particle %d inner step %d starts from %s, previous ended at %s",
                          t, j, k, u["in"]["value"], x)
                step = u["params"].get("stepsize")
                if step is not None and np.isfinite(step) and step > 0:
                    if "stepsize" in st:
                        check(close(step, st["stepsize"][t - 1], 1e-4, 0), "stepsize-used", "stage %d uses stepsize %r, recorded %r", t, step, st["stepsize"][t - 1])
                    else:
                        check(close(step, case["settings"]["stepsize"], 1e-4, 0), "stepsize-used", "stage %d uses stepsize %r, configured %r", t, step, case["settings"]["stepsize"])
                    zu = mcmc.parse(ctx, u, d)
                    if zu is not None:
                        mcmc.one_step(sub, scen, u, f"{t}.{j}.{k}", np.asarray(u["in"]["value"], float), float(step), zu[0], zu[1], temp, ctx, o, "inner-")
                x = np.asarray(u["out"]["value"], float)
            check(close(x, st["value"][t, j], 1e-6, 1e-6), "inner-chain", "stage %d particle %d ends at %s, inner kernel ended at %s", t, j, st["value"][t, j], x)
