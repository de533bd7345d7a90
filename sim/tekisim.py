"""C16: tempered ensemble Kalman inversion under simulated draws and failing simulators."""
import numpy as np
import jax.numpy as jnp
import mocat
from mocat import TemperedEKI, AdaptiveTemperedEKI
import seams
import shr
import smc
from engine import fingerprint
from world import ABCTarget, gen_abc, DrawPlan, gen_draws, T, check, close, key_of, draws


class ConstrainedTarget(ABCTarget):
    def constrain(self, x):
        return jnp.tanh(x)


def np_constrain(case, v):
    return np.tanh(v) if case["constrain"] else v


def gen(prop, rng, i, tier):
    big = tier == "thorough"
    compiled = rng.random() < 0.1
    n = rng.randint(3, 12 if not big else 24)
    c = {"prop": prop, "n": n, "key": rng.randrange(1 << 30), "compiled": compiled, "mode": rng.choice(["schedule", "schedule", "rule", "default", "adaptive", "adaptive", "adaptive"]),
         "nugget": rng.choice([1e-5, 1e-5, 1e-3, 0.1]), "constrain": rng.random() < 0.25, "term_std": 0.,
         "max_iter": rng.randint(1, 6), "max_temperature": rng.choice([1., 1., 0.5, 2.]), "init": rng.choice([None, None, "value", "value", "data"])}
    c["target"] = gen_abc(rng, compiled, 5 * n)
    c["target"]["noise"] = rng.choice([0.3, 0.5, 1.]) if not compiled else 0.
    if rng.random() < 0.4:
        c["target"]["faults"] = {"mode": "none"}
    if c["target"]["faults"]["mode"] == "region":
        c["target"]["faults"]["thr"] = rng.choice([0.9, 0.97])
    if c["mode"] == "adaptive" and rng.random() < 0.12:     # uninformative or nearly uninformative simulator
        c["target"].update(mat_scale=rng.choice([0., 1e-3]), curve=0., noise=0. if compiled else rng.choice([0., 0., 1e-3]), faults={"mode": "none"})
        c["nugget"] = max(c["nugget"], 1e-3)
    if rng.random() < 0.3:
        c["term_std"] = rng.choice([0.5, 0.8, 0.95, 0.2])
    if c["mode"] == "schedule":
        k = rng.randint(1, 5)
        s = sorted(round(rng.uniform(0.02, 1.), 3) for _ in range(k))
        for j in range(1, k):
            if s[j] <= s[j - 1]:
                s[j] = round(s[j - 1] + 0.05, 3)
        if rng.random() < 0.35:     # a last or middle step that is very small
            j = rng.randrange(k)
            e = s[j] * (1 - rng.choice([0.009, 3e-3, 1e-3]))
            if j == 0 or e > s[j - 1]:
                s.insert(j, round(e, 7))
        if rng.random() < 0.5:
            s = [0.] + s
        c["schedule"] = s
        c["via"] = rng.choice(["init", "attr", "kwarg"])
    elif c["mode"] == "rule":
        c["step"] = rng.choice([0.1, 0.3, 0.5, 0.9])
        c["max_temperature"] = rng.choice([1., 0.5])
    elif c["mode"] == "default":
        c["max_temperature"] = rng.choice([1., 0.03, 0.05])
    else:
        c["ess"] = rng.choice([0.9, 0.5, 0.8, 0.95, 0.3])
    c["draws"] = gen_draws(rng, 0, 8, 0.3) if not compiled else {"uniform": {}, "normal": {}}
    return c


def shrinks(case):
    yield from shr.candidates(
        case, ints=[("n", 3), ("max_iter", 1), ("target.dim", 1), ("target.dim_obs", 1)],
        lists=(["schedule"] if len(case.get("schedule", [])) > 1 else []) + ["target.faults.calls"], dicts=["draws.normal"],
        sets=[("target.faults", {"mode": "none"}), ("target.curve", 0.), ("compiled", False), ("constrain", False), ("term_std", 0.), ("init", None)])


def rule(step):
    return lambda state, extra: step * jnp.asarray(extra.iter, jnp.float32)


def build(case):
    scen = (ConstrainedTarget if case["constrain"] else ABCTarget)(case["target"])
    if len(case["target"]["data"]) != case["target"]["dim_obs"]:
        scen.data = scen.data[:case["target"]["dim_obs"]]
    kw = {"nugget": case["nugget"], "term_std": case["term_std"]}
    runkw = {}
    if case["mode"] == "adaptive":
        s = T(AdaptiveTemperedEKI)(max_temperature=case["max_temperature"], max_iter=case["max_iter"], ess_threshold=case["ess"],
                                   max_bisection_iter=300, **kw)
    else:
        if case["mode"] == "schedule" and case["via"] == "init":
            kw["temperature_schedule"] = jnp.array(case["schedule"])
        elif case["mode"] != "schedule":
            kw.update(max_temperature=case["max_temperature"], max_iter=case["max_iter"])
        if case["mode"] == "rule":
            kw["next_temperature"] = rule(case["step"])
        s = T(TemperedEKI)(**kw)
        if case["mode"] == "schedule" and case["via"] == "attr":
            s.temperature_schedule = jnp.array(case["schedule"])
        elif case["mode"] == "schedule" and case["via"] == "kwarg":
            runkw["temperature_schedule"] = jnp.array(case["schedule"])
    init = None
    if case["init"]:
        r = np.random.default_rng(case["key"])
        init = mocat.cdict(value=jnp.asarray(r.normal(size=(case["n"], case["target"]["dim"])), jnp.float32))
        if case["init"] == "data":
            init.simulated_data = jnp.asarray(r.normal(size=(case["n"], case["target"]["dim_obs"])), jnp.float32)
    return scen, s, init, runkw


def run(case, o):
    scen, sampler, init, kw = build(case)
    with seams.Ctx(step=not case["compiled"], record=not case["compiled"]) as ctx:
        plan = DrawPlan(case["draws"])
        ctx.draw_hook = plan
        init0 = None if init is None else {k: np.asarray(v) for k, v in init.__dict__.items()}
        chain = mocat.run(scen, sampler, case["n"], key_of(case["key"]), initial_state=init, **kw)
    o.bump("ticks", ctx.ticks)
    for k, v in scen.faults.fired.items():
        o.bump("fault:simulator " + k, v)
    if plan.fired:
        o.bump("fault:extreme draw", plan.fired)
    ups = ctx.stats.get("updates", [])
    V, D, temp = (np.asarray(getattr(chain, k), float) for k in ("value", "simulated_data", "temperature"))
    n, d, k = case["n"], case["target"]["dim"], case["target"]["dim_obs"]
    S = len(temp) if temp.ndim else 1
    check(V.shape == (S, n, d) and D.shape == (S, n, k) and temp.shape == (S,), "record-shape", "value %s, data %s, temperatures %s", V.shape, D.shape, temp.shape)
    if init0 is not None:
        check(close(V[0], init0["value"], 0, 0), "initial-ensemble", "the first stage is not the given ensemble")
        if "simulated_data" in init0:
            check(close(D[0], init0["simulated_data"], 0, 0), "initial-data", "the first stage does not keep the given simulated data")
    check(temp[0] == 0, "initial-temperature", "first stage at temperature %r", temp[0])
    check_stop(case, V, temp, o)
    for t in range(1, S):
        check_stage(case, scen, V, D, temp, t, ups[t - 1] if not case["compiled"] and t - 1 < len(ups) else None, ctx, o)
    check_data(case, scen, V, D, S, ups, ctx, init0, o)
    o.fp = fingerprint(case["mode"], np.round(temp, 4).tolist(), np.round(V, 3).tolist())
    o.nontrivial = S > 1


def wanted(case, t):
    """Temperature of stage t by the configured schedule or rule."""
    if case["mode"] == "schedule":
        s = case["schedule"] if case["schedule"][0] == 0. else [0.] + case["schedule"]
        return s[min(t, len(s) - 1)]
    if case["mode"] == "rule":
        return case["step"] * t
    return float(np.round(2. ** (t / 50.) - 1, 4))


def limits(case):
    if case["mode"] == "schedule":
        s = [x for x in case["schedule"]]
        return s[-1], len(s)
    return case["max_temperature"], case["max_iter"]


def check_stop(case, V, temp, o):
    mx, mi = limits(case)
    S = len(temp)
    s0 = np.std(np_constrain(case, V[0]), axis=0, ddof=1)
    for t in range(S):
        sd = np.std(np_constrain(case, V[t]), axis=0, ddof=1)
        lim = case["term_std"] * s0
        narrow = bool(np.all(sd < lim))
        edge = bool(np.any(np.abs(sd - lim) < 1e-4 * (np.abs(lim) + np.max(np.abs(V[t])) * 1e-2)))
        nan = bool(np.isnan(V[t]).any())
        atmax = temp[t] >= np.float32(mx)
        why = [w for w, b in (("temperature", atmax), ("limit", t >= mi), ("spread", narrow), ("nan", nan)) if b]
        if abs(temp[t] - mx) < 1e-6 and not atmax:
            continue
        if t < S - 1:
            check(not why or (why == ["spread"] and edge), "stops-late", "went on after stage %d (%s): temperature %r of %r, limit %d, spread %s of %s", t, why, temp[t], mx, mi, sd, lim)
        else:
            check(bool(why) or edge, "stops-early", "stopped after stage %d: temperature %r of %r, limit %d, spread %s of %s", t, temp[t], mx, mi, sd, lim)
            for w in why:
                o.bump("probe:stopped by " + w)


def moments(V, D):
    n = len(V)
    a, b = (V - V.mean(0)) / np.sqrt(n - 1), (D - D.mean(0)) / np.sqrt(n - 1)
    return a.T @ a, a.T @ b, b.T @ b


def algebra(case, V, D, rng=None):
    """Covariances and conditional covariance; rng adds float32-sized relative noise to every intermediate result."""
    def noise(m):
        if rng is None:
            return m
        return m + 3e-7 * rng.standard_normal(m.shape) * (np.abs(m) + 0.1 * np.max(np.abs(m)))
    nug = case["nugget"]
    cx, cxy, cy = (noise(m) for m in moments(V, D))
    if rng is not None:
        cx, cy = (cx + cx.T) / 2, (cy + cy.T) / 2
    inv = noise(np.linalg.inv(noise(cx + nug * np.eye(len(cx)))))
    cyx = cy - noise(cxy.T @ inv @ cxy)
    return cx, cxy, cy, (cyx + cyx.T) / 2


def move(case, y, V, D, alph, z, rng=None):
    nug = case["nugget"]
    cx, cxy, cy, cyx = algebra(case, V, D, rng)
    k = len(y)
    gain = cxy @ np.linalg.inv(cy + (alph - 1) * cyx + nug * np.eye(k))
    if rng is not None:
        gain = gain * (1 + 1e-6 * rng.standard_normal(gain.shape))
    try:
        ch = np.linalg.cholesky(cyx + nug * np.eye(k))
        pert = np.sqrt(alph - 1) * z @ ch.T if alph >= 1 else np.zeros_like(z)
    except np.linalg.LinAlgError:
        pert = np.zeros_like(z)
    return V + (y - D + pert) @ gain.T


def check_stage(case, scen, V, D, temp, t, rec, ctx, o):
    v, d = V[t - 1], D[t - 1]
    y = np.asarray(scen.data, float)
    n, k = d.shape
    mx, _ = limits(case)
    if case["mode"] != "adaptive":
        w = wanted(case, t)
        check(abs(temp[t] - w) <= (1.01e-4 if case["mode"] == "default" else 1e-5 * (1 + abs(w))), "temperature-path", "stage %d at temperature %r, the %s gives %r",
              t, temp[t], case["mode"], w)
    else:
        check(np.isnan(d).any() or (temp[t] <= mx * (1 + 1e-6) and temp[t] >= temp[t - 1]), "temperature-range", "stage %d: temperature %r after %r (maximum %r)", t, temp[t], temp[t - 1], mx)
    if not (np.isfinite(d).all() and np.isfinite(v).all()):
        check(not np.isfinite(V[t]).any() or np.isfinite(d).all(), "failed-simulation", "stage %d: the ensemble had failed simulations and moved to %s", t, V[t])
        o.bump("fault:failed simulation in ensemble")
        return
    if case["mode"] == "adaptive":
        check_adaptive(case, y, V, D, temp, t, o)
    dT = temp[t] - temp[t - 1]
    if rec is None or not dT > 0:
        if not dT > 0 and np.isfinite(temp[t]):
            o.bump("probe:no temperature step")
        if case["compiled"]:
            return
        if not dT > 0:
            return
    zs = [z for z in draws(ctx, rec, "normal") if z.size == n * k]
    if len(zs) != 1:
        o.bump("other:draws not recognised")
        return
    z = zs[0].reshape(n, k).astype(float)
    alph = 1. / dT
    want = move(case, y, v, d, alph, z)
    rng = np.random.default_rng(7)
    dev = np.zeros_like(want)
    for _ in range(6):
        a2 = 1. / (dT + rng.standard_normal() * 6e-8 * (1 + temp[t]))
        if alph < 1.001 and abs(alph - 1) < 1e-3:
            a2 = max(a2, 1.) if rng.random() < 0.5 else a2
        dev = np.maximum(dev, np.abs(move(case, y, v, d, a2, z, rng) - want))
    scale = np.max(np.abs(want - v)) + 1e-6
    tol = 12 * np.max(dev) + 1e-5 * (1 + np.max(np.abs(v)) + scale)
    if tol > 0.05 * scale + 1e-3:
        o.bump("probe:ill-conditioned stage skipped")
        return
    got = V[t]
    check(bool(np.all(np.abs(got - want) <= tol)), "kalman-move", "stage %d (temperature %r to %r): ensemble moved to %s, its Kalman update is %s (tolerance %.1e)",
          t, temp[t - 1], temp[t], np.round(got, 5).tolist(), np.round(want, 5).tolist(), tol)
    o.bump("probe:move checked")


def check_adaptive(case, y, V, D, temp, t, o):
    v, d = V[t - 1], D[t - 1]
    n, k = d.shape
    mx, _ = limits(case)
    lt = np.log(case["ess"] * n)

    def pots(rng=None):
        cyx = algebra(case, v, d, rng)[3]
        p = np.linalg.inv(cyx + case["nugget"] * np.eye(k))
        df = d - y
        return 0.5 * np.einsum("ij,jk,ik->i", df, p, df)
    L = pots()
    rng = np.random.default_rng(5)
    dT, full = temp[t] - temp[t - 1], mx - temp[t - 1]
    le = lambda x, L: smc.log_ess(-x * L)
    got, at_max = le(dT, L), le(full, L)
    alts = [pots(rng) for _ in range(5)]
    # rounding of the new temperature matters when the potentials are huge
    dTs = [dT + s * 2e-7 * (1 + temp[t]) for s in (-1, 1)]
    tol = 2e-3 + 12 * max(max(abs(le(dT, a) - got) for a in alts), max(abs(le(full, a) - at_max) for a in alts), max(abs(le(x, L) - got) for x in dTs))
    if tol > 0.1:
        o.bump("probe:ill-conditioned temperature skipped")
        return
    if temp[t] >= np.float32(mx) - 1e-7:
        check(got >= lt - tol, "temperature-step", "stage %d: jumped to the maximum %r keeping %r of %d effective particles (asked %r)", t, mx, np.exp(got), n, case["ess"])
        o.bump("probe:adaptive step to max")
    elif at_max > lt + tol:
        check(min(le(x, L) for x in np.linspace(0, full, 400)) < lt + tol, "temperature-stuck",
              "stage %d: stopped at %r although going to the maximum %r keeps %r of %d effective particles (asked %r)", t, temp[t], mx, np.exp(at_max), n, case["ess"])
    else:
        check(abs(got - lt) < tol, "temperature-step", "stage %d: step %r from %r keeps %r of %d effective particles (asked %r)", t, dT, temp[t - 1], np.exp(got), n, case["ess"])
        o.bump("probe:adaptive step refined")


def check_data(case, scen, V, D, S, ups, ctx, init0, o):
    """Every recorded simulation came from the simulator at the position it is recorded with."""
    for t in range(S):
        if t == 0 and init0 is not None and "simulated_data" in init0:
            continue
        if case["compiled"]:
            evs = None
        else:
            lo, hi = (0, ups[0]["ev0"] if ups else len(ctx.events)) if t == 0 else (ups[t - 1]["ev0"], ups[t - 1]["ev1"])
            evs = [e for e in ctx.events[lo:hi] if e["cb"] == "likelihood_sample" and e["x"] is not None and e["out"] is not None]
        for j in range(len(V[t])):
            x, y = V[t, j], D[t, j]
            if not np.isfinite(x).all():
                continue
            if evs is not None:
                ok = any(close(e["x"], x, 0, 0) and close(e["out"], y, 0, 0) for e in evs)
                check(ok, "data-mismatch", "stage %d particle %d: recorded data %s did not come from the simulator at its position %s", t, j, y, x)
            elif not scen.near_region_edge(x):
                check(close(y, scen.np_sim(x), 1e-3, 1e-3 * (1 + np.sum(x ** 2))), "data-mismatch", "stage %d particle %d at %s: recorded data %s, simulator gives %s", t, j, x, y, scen.np_sim(x))
        if evs is not None and len(evs) > 1:
            o.bump("probe:simulations checked", len(V[t]))
