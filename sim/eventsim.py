"""C18: event-driven and recursive simulators under any draws."""
import numpy as np
import jax.numpy as jnp
import mocat
from mocat.abc import scenarios as abc_scen
import seams
import shr
from engine import fingerprint
from world import check, close, key_of, EDGE_U


def gen(prop, rng, i, tier):
    big = tier == "thorough"
    kind = rng.choice(["lv", "lv", "lv", "sir", "sir", "ricker"])
    c = {"prop": prop, "kind": kind, "key": rng.randrange(1 << 30), "compiled": rng.random() < 0.15, "transformed": rng.random() < 0.35,
         "float": rng.random() < 0.4, "draws": {"uniform": {}, "choice": {}, "normal": {}, "poisson": {}}}
    m = c["max_iter"] = rng.choice([3, 8, 20, 40]) * (2 if big else 1)
    if kind == "lv":
        c["init"] = rng.choice([[rng.randint(1, 6), rng.randint(1, 6)], [rng.randint(20, 60), rng.randint(5, 30)], [0, 0], [0, rng.randint(1, 4)],
                                [rng.randint(1, 4), 0], [1, 1], [1, rng.randint(2, 5)]])
        c["x"] = [rng.choice([0.3, 1., 0.05]), rng.choice([0.02, 0.3, 1.]), rng.choice([0.3, 1., 3.])]
        if not c["transformed"] and rng.random() < 0.25:
            c["x"][rng.randrange(3)] = 0.
        rate = c["x"][0] * c["init"][0] + c["x"][1] * c["init"][0] * c["init"][1] + c["x"][2] * c["init"][1] + 1e-3
        t0 = rng.choice([0., 0., 0., 1., 2.5, -1., 10.])
        k = rng.randint(1, 7)
        span = m / rate * rng.choice([0.2, 0.5, 1., 2.])
        ts = sorted(rng.random() ** 1.5 * span for _ in range(k))
        if rng.random() < 0.4:
            ts[0] = 1e-4 * span
            ts.sort()
        c["times"] = [t0] + [round(t0 + t, 5) for t in ts]
        c["times"] = sorted(float(np.float32(t)) for t in c["times"])
    elif kind == "sir":
        c["init"] = rng.choice([[rng.randint(2, 12), rng.randint(1, 4)], [rng.randint(1, 5), 1], [0, rng.randint(1, 3)], [5, 0], [rng.randint(20, 40), 3]])
        c["x"] = [rng.choice([0.5, 1., 3.]), rng.choice([0.3, 1., 2.])]
        if not c["transformed"] and rng.random() < 0.25:
            c["x"][rng.randrange(2)] = 0.
    else:
        c["init"] = rng.choice([1, 1, 2, 5, 1.5])
        c["steps"] = rng.randint(1, 12)
        c["inds"] = [rng.randrange(c["steps"] + 1) for _ in range(rng.randint(1, 6))]
        c["x"] = [rng.choice([1., 5., 44.7, 0.]), rng.choice([0., 0.3, 1.]), rng.choice([0.5, 10., 0.])]
    d = c["draws"]
    if not c["compiled"]:
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 4)):
                d["uniform"][str(rng.randrange(m))] = rng.choice(EDGE_U + [1e-6])
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, m)):
                d["choice"][str(rng.randrange(m))] = rng.choice(["first", "last", "last", "rarest"])
        if kind == "ricker" and rng.random() < 0.5:
            d["poisson"]["0"] = rng.choice(["neg", "zero"])
            d["normal"][str(rng.randrange(c["steps"]))] = rng.choice([6., -6., 0.])
    return c


def shrinks(case):
    yield from shr.candidates(case, ints=[("max_iter", 1)], lists=["times"] if len(case.get("times", [])) > 2 else [],
                              dicts=["draws.uniform", "draws.choice", "draws.normal"],
                              sets=[("transformed", False), ("float", False), ("compiled", False)])


class Plan:
    """Legal extremes: any uniform in [0, 1), any event of positive probability."""

    def __init__(self, case):
        self.d = case["draws"]
        self.n = {}
        self.fired = 0

    def __call__(self, name, key, a, kw, out):
        i = self.n[name] = self.n.get(name, -1) + 1
        v = self.d.get(name, {}).get(str(i))
        if v is None:
            return out
        self.fired += 1
        if name == "uniform":
            return jnp.zeros_like(out) + jnp.asarray(v, out.dtype)
        if name == "normal":
            return jnp.zeros_like(out) + jnp.asarray(v, out.dtype)
        if name == "poisson":
            return jnp.zeros_like(out) + (-1 if v == "neg" else 0)
        if name == "choice":
            p = kw.get("p")
            if p is None:
                return out
            p = np.asarray(p, float)
            ok = [j for j in range(len(p)) if p[j] > 0]
            if not ok:
                return out
            j = ok[0] if v == "first" else ok[-1] if v == "last" else min(ok, key=lambda q: p[q])
            return jnp.zeros_like(out) + j
        return out


def run(case, o):
    {"lv": run_lv, "sir": run_sir, "ricker": run_ricker}[case["kind"]](case, o)


def context(case):
    ctx = seams.Ctx(step=not case["compiled"], record=not case["compiled"])
    plan = Plan(case)
    if not case["compiled"]:
        ctx.draw_hook = plan
    return ctx, plan


def initial(case):
    return jnp.asarray(case["init"], jnp.float32 if case["float"] else jnp.int32)


def params(case):
    x = jnp.asarray(case["x"], jnp.float32)
    return jnp.log(x) if case["transformed"] else x


EVENTS = {"lv": np.array([[1, 0], [-1, 1], [0, -1]]), "sir": np.array([[-1, 1], [0, -1]])}


def hazards(case, s):
    x = np.asarray(jnp.exp(params(case)) if case["transformed"] else params(case), float)
    if case["kind"] == "lv":
        return np.array([x[0] * s[0], x[1] * s[0] * s[1], x[2] * s[1]])
    return np.array([x[0] / sum(case["init"]) * s[0] * s[1] if sum(case["init"]) else 0., x[1] * s[1]])


def follow(case, ctx, stop, t0, o):
    """Rebuilds the path from the recorded draws.  Returns (states, times, complete) or None if they are not recognised."""
    us = [t for t in ctx.tape if t["op"] in ("uniform", "exponential") and not t["user"] and np.asarray(t["out"]).size == 1]
    cs = [t for t in ctx.tape if t["op"] in ("choice", "categorical") and not t["user"] and np.asarray(t["out"]).size == 1]
    states, times = [np.array(case["init"], float)], [float(t0)]
    for k in range(case["max_iter"] + 1):
        s, t = states[-1], times[-1]
        if k == case["max_iter"] or stop(s, t):
            break
        h = hazards(case, s)
        H = h.sum()
        if H <= 0:
            o.bump("probe:no event possible")
            break
        if k >= len(us) or k >= len(cs):
            return None
        u, c = us[k], cs[k]
        if c["kw"].get("p") is not None:
            p = np.asarray(c["kw"]["p"], float)
            check(p.shape == h.shape and close(p / p.sum(), h / H, 1e-4, 1e-6), "event-probability", "event %d at %s: chosen with probabilities %s, hazards are %s", k, s, p, h)
        e = int(np.asarray(c["out"]))
        if e >= len(h) or e < 0:
            return None
        check(h[e] > 0, "impossible-event", "event %d at %s: event %d happened with hazard 0 (hazards %s)", k, s, e, h)
        dt = float(np.asarray(u["out"], float)) / H if u["op"] == "exponential" else max(-np.log(1e-6 + float(np.asarray(u["out"], float))), 0.) / H
        states.append(s + EVENTS[case["kind"]][e])
        times.append(t + dt)
        o.bump("probe:event")
    return states, times, len(cs) + 0 * len(us)


def run_lv(case, o):
    cls = abc_scen.TransformedLotkaVolterra if case["transformed"] else abc_scen.LotkaVolterra
    times = jnp.asarray(case["times"], jnp.float32)
    scen = cls(initial_prey_pred=initial(case), times=times, max_iter=case["max_iter"])
    key = key_of(case["key"])
    ctx, plan = context(case)
    with ctx:
        prey = np.asarray(scen.likelihood_sample(params(case), key), float)
    x = jnp.exp(params(case)) if case["transformed"] else params(case)
    ctx2, plan2 = context(case)
    with ctx2:
        both = np.asarray(abc_scen.lotka_volterra_simulate(initial(case), times, x, key, max_iter=case["max_iter"]), float)
    note(o, ctx, plan)
    note(o, ctx2, plan2)
    k = len(case["times"]) - 1
    check(prey.shape == (k,) and both.shape == (k, 2), "report-shape", "reports %s and %s for %d observation times", prey.shape, both.shape, k)
    check(np.all(np.isfinite(both)) and np.all(both == np.round(both)) and np.all(both >= 0), "population", "populations reported %s", both.tolist())
    check(close(prey, both[:, 0], 0, 0), "report", "likelihood_sample reports %s, the simulation has %s prey", prey, both[:, 0])
    if not case["compiled"]:
        r = follow(case, ctx2, lambda s, t: t >= max(case["times"]), case["times"][0], o)
        if r is None:
            o.bump("other:draws not recognised")
        else:
            S, T, drawn = r
            S, T = np.array(S), np.array(T)
            for j, t in enumerate(case["times"][1:]):
                eps = 1e-5 * (1 + abs(t) + len(T) * 0.02)
                lo, hi = np.sum(T[1:] < t - eps), np.sum(T[1:] <= t + eps)
                ok = any(np.array_equal(both[j], S[q]) for q in range(lo, hi + 1))
                check(ok, "state-in-force", "time %r: reported %s, in force is %s (events at %s, populations %s)", t, both[j], S[lo], np.round(T[1:], 4).tolist(), S.tolist())
                if lo == 0:
                    o.bump("probe:observed before the first event")
                if hi == len(T) - 1:
                    o.bump("probe:observed after the last event")
    if not np.any(np.asarray(case["x"])) or sum(case["init"]) == 0:
        check(np.all(both == np.asarray(case["init"])), "impossible-event", "nothing can happen from %s with rates %s, reported %s", case["init"], case["x"], both.tolist())
    o.fp = fingerprint("lv", case["init"], both.tolist())
    o.nontrivial = True


def run_sir(case, o):
    cls = abc_scen.TransformedSIR if case["transformed"] else abc_scen.SIR
    scen = cls(initial_si=initial(case), max_iter=case["max_iter"])
    ctx, plan = context(case)
    with ctx:
        times, si = scen.simulate_times_and_si(params(case), key_of(case["key"]))
    note(o, ctx, plan)
    times, si = np.asarray(times, float), np.asarray(si, float)
    check(times.ndim == 1 and si.shape == (len(times), 2), "report-shape", "times %s populations %s", times.shape, si.shape)
    init = np.asarray(case["init"], float)
    # ---- the recorded path: up to the first row that is padding
    full = np.vstack([init, si])
    n = 0
    for r in range(1, len(full)):
        if full[r - 1][1] <= 0:
            break
        if times[r - 1] == 0. and np.array_equal(full[r], init):
            break
        n = r
    path, pt = full[:n + 1], np.concatenate([[0.], times[:n]])
    fin = np.isfinite(pt)
    check(not np.isnan(pt).any() and np.all(np.diff(pt[fin]) >= 0) and np.all(pt >= 0), "time-order", "simulated times %s", pt.tolist())
    check(np.all(path >= 0) and np.all(path.sum(1) <= init.sum()) and np.all(path == np.round(path)), "population", "populations %s", path.tolist())
    for r in range(1, n + 1):
        d = path[r] - path[r - 1]
        h = hazards(case, path[r - 1])
        e = [q for q in range(2) if np.array_equal(d, EVENTS["sir"][q])]
        if not np.isfinite(pt[r]) and not np.any(d):
            check(h.sum() <= 0, "no-event", "row %d: no event although hazards are %s", r, h)
            continue
        check(len(e) == 1, "one-event", "row %d: populations went from %s to %s", r, path[r - 1], path[r])
        check(h[e[0]] > 0, "impossible-event", "row %d: populations went from %s to %s with hazards %s", r, path[r - 1], path[r], h)
    stuck = hazards(case, path[-1]).sum() <= 0
    check(path[-1][1] <= 0 or n == case["max_iter"] or stuck, "stops-early", "the epidemic stopped at %s after %d events (limit %d)", path[-1], n, case["max_iter"])
    for r in range(n, len(times)):
        check((times[r] == 0. and np.array_equal(si[r], init)) or np.array_equal(si[r], path[-1]), "stops-late", "row %d after the end: time %r populations %s", r + 1, times[r], si[r])
    if not case["compiled"]:
        r = follow(case, ctx, lambda s, t: s[1] <= 0, 0., o)
        if r is None:
            o.bump("other:draws not recognised")
        else:
            S, T, drawn = np.array(r[0]), np.array(r[1]), r[2]
            m = len(S) - 1
            check(n >= m and np.array_equal(full[:m + 1], S), "path", "populations %s, the draws give %s", full[:m + 1].tolist(), S.tolist())
            check(close(times[:m], T[1:], 1e-4, 1e-5), "times", "event times %s, the draws give %s", times[:m], T[1:])
            check(S[-1][1] > 0 or drawn <= m, "stops-late", "%d events drawn, nobody was infected after %d", drawn, m)
    o.fp = fingerprint("sir", path.tolist(), np.round(pt, 4).tolist())
    o.nontrivial = n > 0


def run_ricker(case, o):
    inds = jnp.asarray(case["inds"], jnp.int32)
    scen = abc_scen.Ricker(initial_n=case["init"], num_steps=case["steps"], observation_inds=inds)
    ctx, plan = context(case)
    x = jnp.asarray(case["x"], jnp.float32)
    with ctx:
        obs = np.asarray(scen.likelihood_sample(x, key_of(case["key"])), float)
    ctx2, plan2 = context(case)
    with ctx2:
        ns = np.asarray(abc_scen.ricker_simulate(case["init"], x[0], x[1], case["steps"], key_of(case["key"])), float)
    note(o, ctx, plan)
    note(o, ctx2, plan2)
    check(obs.shape == (len(case["inds"]),) and np.all(obs >= 0) and np.all(obs == np.round(obs)), "observation", "observed counts %s", obs.tolist())
    check(ns.shape == (case["steps"] + 1,) and ns[0] == case["init"], "report-shape", "recursion %s from %r", ns, case["init"])
    check(np.all(np.isfinite(ns)) and np.all(ns >= 0), "population", "populations %s", ns)
    if not case["compiled"]:
        for c, rec in ((ctx2, "recursion"), (ctx, "observed")):
            z = [float(np.asarray(t["out"])) for t in c.tape if t["op"] == "normal" and not t["user"] and np.asarray(t["out"]).size == 1]
            if len(z) != case["steps"]:
                z2 = [np.asarray(t["out"]).ravel() for t in c.tape if t["op"] == "normal" and not t["user"]]
                z = list(np.concatenate(z2)) if z2 else []
                if len(z) != case["steps"]:
                    o.bump("other:draws not recognised")
                    continue
            n = [float(case["init"])]
            for q in z:
                n.append(case["x"][0] * n[-1] * np.exp(-n[-1] + case["x"][1] * q))
            n = np.array(n)
            if rec == "recursion":
                check(close(ns, n, 2e-3, 1e-6), "recursion", "populations %s, the recursion gives %s", ns, n)
            else:
                p = [t for t in c.tape if t["op"] == "poisson" and not t["user"]]
                lam = p[0]["args"][0] if len(p) == 1 and p[0]["args"] else p[0]["kw"].get("lam") if len(p) == 1 else None
                if lam is None:
                    o.bump("other:draws not recognised")
                    continue
                lam = np.asarray(lam, float) * np.ones(len(case["inds"]))
                check(close(lam, case["x"][2] * n[case["inds"]], 2e-3, 1e-5), "observation-rate", "counts observed at rates %s, requested indices have %s", lam, case["x"][2] * n[case["inds"]])
                out = np.asarray(p[0]["out"], float)
                check(np.array_equal(obs, np.maximum(out, 0)), "observation", "observed %s, drawn %s", obs, out)
                o.bump("probe:recursion checked")
    zero = [j for j, q in enumerate(case["inds"]) if case["x"][2] == 0 or (case["x"][0] == 0 and q > 0)]
    check(np.all(obs[zero] == 0), "observation", "observed %s at rate zero", obs)
    o.fp = fingerprint("ricker", np.round(ns, 4).tolist(), obs.tolist())
    o.nontrivial = True


def note(o, ctx, plan):
    o.bump("ticks", ctx.ticks)
    if plan.fired:
        o.bump("fault:extreme draw", plan.fired)
