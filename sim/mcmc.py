"""C03, C04, C05: Markov chain samplers under simulated draws, failing evaluations and chained runs."""
import numpy as np
import jax.numpy as jnp
import mocat
import seams
import shr
from engine import fingerprint
from world import (Target, gen_target, DrawPlan, gen_draws, T, draws, check, close, same, key_of, Violation, F32MAX)

KINDS = {"rw": mocat.RandomWalk, "ud": mocat.Underdamped, "qn": mocat.QNUnderdamped}


# ------------------------------------------------------------------ generation
def gen(prop, rng, i, tier):
    if prop == "C05" and i % 5 == 4:
        import abcsim
        return abcsim.gen(prop, rng, i, tier)
    compiled = rng.random() < (0.12 if prop != "C04" else 0.0)
    kind = rng.choice(["rw", "rw", "rw", "ud", "ud", "qn"] if not compiled else ["rw", "ud", "qn"])
    big = tier == "thorough"
    nmax = {"rw": 26, "ud": 12, "qn": 8}[kind] * (2 if big else 1)
    n = rng.choice([1, 2]) if rng.random() < 0.08 else rng.randint(3, nmax)
    c = {"prop": prop, "kind": kind, "n": n, "key": rng.randrange(1 << 30), "compiled": compiled,
         "target": gen_target(rng, faults=True, temperature=True, n_calls=3 * n, compiled=compiled),
         "settings": {}, "segments": 1, "init": None}
    s = c["settings"]
    s["stepsize"] = round(10 ** rng.uniform(-2, 0.7), 3) if kind == "rw" else round(10 ** rng.uniform(-2, 0.0), 3)
    L = 1
    if kind in ("ud", "qn"):
        L = s["leapfrog_steps"] = rng.choice([1, 1, 2, 3])
        s["friction"] = rng.choice([0.3, 1., 3., "inf"])
    if kind == "qn":
        s["m"] = rng.choice([2, 3, 5])
        s["pos_def_r"] = rng.choice([0.5, 0.5, 1.])
        s["init_hessian_sqrt_diag"] = rng.choice([1., 1., 2., 0.5])
        s["sort_bfgs"] = rng.random() < 0.3
        if rng.random() < 0.3:
            s["max_val"] = rng.choice([1., 2., 4.])
    r = rng.random()
    if prop == "C05":
        c["corr"] = "rm"
    elif prop == "C03":
        c["corr"] = rng.choice(["met", "met", "rm"])
    else:
        c["corr"] = "none" if r < 0.2 else ("rm" if r < 0.35 else "met")
    if c["corr"] == "rm":
        c["rm"] = {"rm_stepsize_scale": rng.choice([1., 0.3, 3., 10.]),
                   "rm_stepsize_neg_exponent": rng.choice([2 / 3, 0.5, 1., 0.]), "log_update": rng.random() < 0.75}
        if rng.random() < 0.6:
            c["rm"]["adapt_cut_off"] = rng.randint(0, n + 2)
        if rng.random() < 0.4:
            c["target_rate"] = rng.choice([0.1, 0.44, 0.8])
        if rng.random() < 0.25:
            c["mono"] = "increasing"
        if kind != "rw" and s["friction"] != "inf" and rng.random() < 0.2:
            c["tune"] = "friction"
        if rng.random() < 0.35 and "tune" not in c:
            s["stepsize"] = None
    c["draws"] = {"uniform": {}, "normal": {}} if compiled else gen_draws(rng, n, n)
    if rng.random() < 0.3 and not compiled:
        c["segments"] = 2
        if rng.random() < 0.3:
            c["temp2"] = round(rng.uniform(0.05, 1.5), 2)
    if rng.random() < 0.4:
        c["init"] = [round(rng.uniform(-2, 2), 2) for _ in range(c["target"]["dim"])]
    if rng.random() < 0.3:
        c["corr_via"] = rng.choice(["attr", "kwarg"])
    return c


def shrinks(case):
    if case.get("abc"):
        import abcsim
        yield from abcsim.shrinks(case)
        return
    yield from shr.candidates(
        case, ints=[("segments", 1), ("n", 2), ("settings.leapfrog_steps", 1), ("target.dim", 1)],
        lists=["target.faults.calls"], dicts=["draws.uniform", "draws.normal"],
        sets=[("target.faults", {"mode": "none"}), ("corr", "met"), ("target.lik", "gauss"), ("target.prior", "flat"),
              ("settings.sort_bfgs", False), ("compiled", False)])


# ------------------------------------------------------------------ execution
def build(case):
    spec = case["target"]
    if case.get("init") is not None and len(case["init"]) != spec["dim"]:
        case = dict(case, init=case["init"][:1] * spec["dim"])
    scen = Target(spec)
    s = {k: (jnp.inf if v == "inf" else v) for k, v in case["settings"].items()}
    sampler = T(KINDS[case["kind"]])(**s)
    kw = {}
    if case["corr"] == "none":
        corr = mocat.Uncorrected
    elif case["corr"] == "met":
        corr = mocat.Metropolis if case["key"] % 2 else mocat.Metropolis()
    else:
        corr = mocat.RMMetropolis(**case["rm"])
        if "target_rate" in case:
            sampler.tuning.target = case["target_rate"]
        if "mono" in case:
            sampler.tuning.monotonicity = case["mono"]
        if "tune" in case:
            sampler.tuning.parameter = case["tune"]
    if case.get("corr_via") == "attr":
        sampler.correction = corr
    else:
        kw["correction"] = corr
    init = None if case.get("init") is None else mocat.cdict(value=jnp.array(case["init"], jnp.float32))
    return scen, sampler, init, kw


def execute(case, o, ctx):
    scen, sampler, init, kw = build(case)
    chains = []
    key = key_of(case["key"])
    for seg in range(case["segments"]):
        n0 = len(ctx.stats.get("updates", []))
        if seg and case.get("temp2") is not None:
            scen.temperature = case["temp2"]
        temp = float(scen.temperature)
        chain = mocat.run(scen, sampler, case["n"], key_of(case["key"] + seg), initial_state=init, **kw)
        if case["prop"] in ("C03", "C04") and case["kind"] != "rw" and init is not None and hasattr(init, "momenta"):
            check(close(chain.momenta[0], np.asarray(init.momenta), 0, 0), "momentum-start", "continued with momentum %s, starts with %s",
                  np.asarray(init.momenta), chain.momenta[0])
            o.bump("probe:momentum handed on")
        given = case["init"] if seg == 0 else np.asarray(chains[-1][0].value[-1])
        chains.append((chain, ctx.stats.get("updates", [])[n0:], temp, given))
        st = chain[-1]
        init = mocat.cdict(value=st.value) if seg % 2 == 0 and case["kind"] == "rw" else st
        if hasattr(init, "time"):
            del init.__dict__["time"]
        if hasattr(init, "summary"):
            del init.__dict__["summary"]
    return scen, sampler, chains


def run(case, o):
    if case.get("abc"):
        import abcsim
        return abcsim.run(case, o)
    if not any(case["target"]["faults"].get("calls") or []) and case["target"]["faults"].get("mode") == "call":
        case["target"]["faults"] = {"mode": "none"}
    with seams.Ctx(step=not case["compiled"], record=not case["compiled"]) as ctx:
        plan = DrawPlan(case["draws"])
        ctx.draw_hook = plan
        scen, sampler, chains = execute(case, o, ctx)
    o.bump("ticks", ctx.ticks)
    for k, v in scen.faults.fired.items():
        o.bump("fault:evaluation " + k, v)
    if plan.fired:
        o.bump("fault:extreme draw", plan.fired)
    if case["segments"] > 1:
        o.bump("fault:run split and continued", case["segments"] - 1)
    bits = []
    for chain, ups, temp, given in chains:
        moved = chain_moved(chain)
        bits.append("".join("x" if m else "." for m in moved))
        if case["prop"] == "C03":
            check_records(case, scen, chain, ups, temp, given, ctx, o)
        if case["prop"] == "C04":
            check_steps(case, scen, sampler, chain, ups, temp, given, ctx, o)
        if case["prop"] == "C05":
            check_tuning(case, scen, sampler, chain, ups, temp, given, ctx, o)
    o.bump("probe:accepted", sum(b.count("x") for b in bits))
    o.bump("probe:rejected", sum(b.count(".") for b in bits))
    o.fp = fingerprint(case["kind"], case["corr"], bits, sorted(scen.faults.fired.items()), case["compiled"],
                       case["settings"], case["target"]["lik"], [np.round(np.asarray(c[0].value, float), 3).tolist() for c in chains])
    o.nontrivial = case["n"] > 1


def chain_moved(chain):
    v = np.asarray(chain.value, float)
    return [not same(v[i], v[i - 1]) for i in range(1, len(v))]


def scale_tol(x, base=1e-4):
    return base * (1. + float(np.sum(np.abs(x)) ** 2) + float(np.sum(np.abs(x)) ** 4))


CACHED = ["potential", "grad_potential", "prior_potential", "grad_prior_potential", "likelihood_potential",
          "grad_likelihood_potential"]


def cached(case):
    return ["potential"] if case["kind"] == "rw" else CACHED


# ------------------------------------------------------------------ C03
def check_records(case, scen, chain, ups, temp, given, ctx, o):
    n, d = case["n"], case["target"]["dim"]
    v = np.asarray(chain.value, float)
    check(v.shape == (n, d), "record-count", "asked for %d states of dimension %d, got array %s", n, d, v.shape)
    for k in cached(case) + ["alpha"] + (["momenta"] if case["kind"] != "rw" else []):
        check(hasattr(chain, k), "record-missing", "chain has no %s", k)
        check(np.asarray(getattr(chain, k)).shape[:1] == (n,), "record-count", "%s has shape %s for %d states", k,
              np.asarray(getattr(chain, k)).shape, n)
    arr = {k: np.asarray(getattr(chain, k), float) for k in cached(case)}
    alpha = np.asarray(chain.alpha, float)
    if given is not None:
        check(close(v[0], given, 1e-6, 1e-6), "first-record", "first record %s is not the initial state %s", v[0], given)
    bad_events = {}
    if not case["compiled"]:
        for i, u in enumerate(ups):
            bad_events[i + 1] = [e for e in ctx.events[u["ev0"]:u["ev1"]]
                                 if e["x"] is not None and e["out"] is not None and not np.all(np.isfinite(e["out"]))]
    for i in range(n):
        x = v[i]
        moved = i == 0 or not same(v[i], v[i - 1])
        check(np.isfinite(alpha[i]) and 0 <= alpha[i] <= 1, "alpha-range", "state %d: acceptance probability %r", i, alpha[i])
        if i and moved:
            check(alpha[i] > 0, "moved-at-zero", "state %d moved with acceptance probability %r", i, alpha[i])
            check(np.all(np.isfinite(x)), "entered-bad", "state %d is at %s", i, x)
            for e in bad_events.get(i, []):
                if close(np.ravel(e["x"]), x, 1e-6, 1e-6):
                    raise Violation("entered-bad", f"state {i} entered {x} whose {e['cb']} evaluated to {e['out']}")
        if i and not moved:
            for k in cached(case):
                check(close(arr[k][i], arr[k][i - 1], 1e-4, scale_tol(x)), "stale-record",
                      "state %d stays at %s but %s changed from %s to %s", i, x, k, arr[k][i - 1], arr[k][i])
        elif i or not bad_initial(case, ctx, ups, x):
            if scen.near_region_edge(x):
                continue
            p, l = scen.np_prior(x), scen.np_lik(x)
            want = {"potential": p + temp * l}
            if case["kind"] != "rw":
                gp, gl = scen.np_gprior(x), scen.np_glik(x)
                want.update(prior_potential=p, likelihood_potential=l, grad_prior_potential=gp,
                            grad_likelihood_potential=gl, grad_potential=gp + temp * gl)
            if i:
                check(np.isfinite(want["potential"]), "entered-bad", "state %d entered %s with potential %s", i, x,
                      want["potential"])
            if not np.isfinite(want["potential"]):
                continue
            for k, w in want.items():
                check(close(arr[k][i], w, 1e-3, scale_tol(x)), "record-mismatch",
                      "state %d at %s stores %s=%s, the position has %s", i, x, k, arr[k][i], w)


def bad_initial(case, ctx, ups, x):
    """An injected failure hit the evaluation of the initial state itself."""
    return any(e["act"] for e in ctx.events if e["x"] is not None and close(np.ravel(e["x"]), x, 1e-6, 1e-6))


# ------------------------------------------------------------------ C04
def parse(ctx, rec, d):
    """(z, u) of one update, or None if the draws do not have the expected kinds."""
    zs = [a for a in draws(ctx, rec, "normal") if a.size == d]
    us = [a for a in draws(ctx, rec, "uniform") if a.size == 1]
    others = [t for t in ctx.tape[rec["tape0"]:rec["tape1"]] if t["op"] not in ("normal", "uniform", "split", "fold_in") and not t["user"]]
    if len(zs) != 1 or len(us) > 1 or others:
        return None
    return np.ravel(zs[0]).astype(float), (float(np.ravel(us[0])[0]) if us else None)


def u_total(scen, x, temp):
    return scen.np_prior(x) + temp * scen.np_lik(x)


def grad(scen, x, temp):
    return np.asarray(scen.np_gprior(x), float) + temp * np.asarray(scen.np_glik(x), float)


def prod_sqrt(ps, qs, z, diag):
    c = diag * np.asarray(z, float)
    for p, q in zip(ps, qs):
        c = c - p * np.dot(q, c)
    return c


def prod_sqrt_t(ps, qs, z, diag):
    c = np.asarray(z, float)
    for p, q in zip(ps[::-1], qs[::-1]):
        c = c - q * np.dot(p, c)
    return diag * c


def bfgs_reference(mem, temp, sort, r, h):
    """Hessian approximation from the stored positions and gradients (float64)."""
    x = np.asarray(mem["value"], float)
    with np.errstate(all="ignore"):
        U = np.asarray(mem["prior_potential"], float) + temp * np.asarray(mem["likelihood_potential"], float)
    g = np.asarray(mem["grad_prior_potential"], float) + temp * np.asarray(mem["grad_likelihood_potential"], float)
    if not (np.all(np.isfinite(x)) and np.all(np.isfinite(g))):
        return None
    ok = np.asarray(mem["prior_potential"], float)[:-1] > -np.inf
    if sort:
        U2 = np.where(np.isnan(U), np.inf, U)
        fin = U2[np.isfinite(U2)]
        if len(fin) > 1 and np.min(np.abs(np.subtract.outer(fin, fin))[~np.eye(len(fin), dtype=bool)]) < 1e-4:
            d = np.abs(np.subtract.outer(fin, fin))
            d[np.eye(len(fin), dtype=bool)] = 1.
            if np.any((d < 1e-4) & (d > 0)):
                return None
        o = np.argsort(U2, kind="stable")
        x, g = x[o], g[o]
    s, y = x[1:] - x[:-1], g[1:] - g[:-1]
    sBs = np.sum((s * h) ** 2, -1)
    if np.any((sBs > 1e-13) & (sBs < 1e-7)):
        return None
    with np.errstate(all="ignore"):
        rats = np.where(sBs < 1e-10, -np.inf, -np.sum(s * y, -1) / sBs)
    lam = max(0., np.max(rats) + r)
    y = y + lam * h ** 2 * s
    d = x.shape[1]
    B = np.eye(d) * h ** 2
    for i in range(len(s)):
        sy, Bs = s[i] @ y[i], B @ s[i]
        sBs_i = s[i] @ Bs
        m = min(abs(sBs_i), abs(sy))
        if 1e-12 < m < 1e-6:
            return None
        if not ok[i] or m < 1e-10 or sy <= 0:
            continue
        B = B - np.outer(Bs, Bs) / sBs_i + np.outer(y[i], y[i]) / sy
    return B


def check_steps(case, scen, sampler, chain, ups, temp, given, ctx, o):
    n, d, kind = case["n"], case["target"]["dim"], case["kind"]
    v = np.asarray(chain.value, float)
    check(v.shape == (n, d), "record-count", "asked for %d states of dimension %d, got array %s", n, d, v.shape)
    if len(ups) != n - 1:
        o.bump("probe:updates not one per state")
        return
    for i, rec in enumerate(ups, 1):
        x0 = np.asarray(rec["in"]["value"], float)
        check(close(x0, v[i - 1], 1e-6, 1e-6), "chain-broken", "step %d starts at %s, previous record is %s", i, x0, v[i - 1])
        check(close(rec["out"]["value"], v[i], 1e-6, 1e-6), "chain-broken", "step %d ends at %s but record is %s", i,
              rec["out"]["value"], v[i])
        step = rec["params"].get("stepsize")
        if step is None or not np.isfinite(step) or step <= 0:
            continue
        zu = parse(ctx, rec, d)
        if zu is None:
            o.bump("probe:unparsed step")
            continue
        one_step(case, scen, rec, i, x0, float(step), zu[0], zu[1], temp, ctx, o)


def one_step(case, scen, rec, i, x0, step, z, u, temp, ctx, o, prefix=""):
    kind = case["kind"]
    x1 = np.asarray(rec["out"]["value"], float)
    moved = not same(rec["out"]["value"], rec["in"]["value"])
    evs = [e for e in ctx.events[rec["ev0"]:rec["ev1"]] if e["x"] is not None]
    faulted = any(e["act"] for e in evs)
    if faulted:
        o.bump("probe:faulted step")
        if moved and case["corr"] != "none":
            for e in evs:
                if e["out"] is not None and not np.all(np.isfinite(e["out"])) and close(np.ravel(e["x"]), x1, 1e-6, 1e-6):
                    raise Violation(prefix + "accept-bad", f"step {i} moved to {x1} whose {e['cb']} evaluated to {e['out']}")
        return
    U0 = u_total(scen, x0, temp)
    stored = float(np.asarray(rec["in"]["potential"]))
    if not np.isfinite(stored) and np.isfinite(U0):
        U0 = stored        # a failed evaluation at start-up
    if kind == "rw":
        xp = x0 + np.sqrt(step) * z
        dK = 0.
        p_rej = p_acc = None
        mult = 1.
    else:
        fr = rec["params"]["friction"]
        fr = float(np.asarray(fr))
        e1 = np.exp(-fr * step)
        p = -np.asarray(rec["in"]["momenta"], float)
        diag = 1.
        S = Sinv = None
        if kind == "qn":
            mem = rec["out"]["memory"]
            if not check_memory(case, scen, rec, i, temp, o, prefix):
                return
            h = float(np.asarray(mem["init_hessian_sqrt_diag"]))
            z = prod_sqrt(mem["us"].astype(float), mem["ts"].astype(float), z, h)
            ps, qs = mem["ps"].astype(float), mem["qs"].astype(float)
            S = lambda a: prod_sqrt(ps, qs, prod_sqrt_t(ps, qs, a, 1 / h), 1 / h)
            K = lambda a: 0.5 * np.sum(prod_sqrt_t(ps, qs, a, 1 / h) ** 2)
        else:
            S = lambda a: a
            K = lambda a: 0.5 * np.sum(a ** 2)
        if fr == np.inf:
            e1, e2 = 0., 1.
        else:
            e2 = np.sqrt(1 - np.exp(-2 * fr * step))
        p = e1 * p + e2 * z
        p_rej = p
        xp, q = x0, p
        g = np.asarray(rec["in"]["grad_potential"], float)
        gref = grad(scen, x0, temp)
        if np.isfinite(stored) and not scen.near_region_edge(x0) and np.all(np.isfinite(gref)):
            check(close(g, gref, 1e-3, scale_tol(x0)), prefix + "gradient", "step %d starts with gradient %s, potential gradient is %s", i, g, gref)
        if not np.all(np.isfinite(g)):
            return
        for _ in range(int(case["settings"].get("leapfrog_steps", 1))):
            q = q - step / 2 * g
            xp = xp + step * S(q)
            if not np.all(np.isfinite(xp)) or np.max(np.abs(xp)) > 30:
                o.bump("probe:diverged trajectory")
                return
            if scen.near_region_edge(xp):
                return
            with np.errstate(all="ignore"):
                lik = scen.np_lik(xp)
            if not np.isfinite(lik) and scen.faults.plan["mode"] == "region" and scen.faults.plan["kind"] == "nan":
                # the gradient of a failed evaluation is whatever the user's function gives
                g = grad(scen, xp, temp)
            else:
                g = grad(scen, xp, temp)
            q = q - step / 2 * g
        p_acc = -q
        dK = K(p_acc) - K(p_rej)
        mult = 10.
    if scen.near_region_edge(xp) or scen.near_region_edge(x0):
        return
    U1 = u_total(scen, xp, temp)
    tol = 2e-4 * mult * (1 + np.max(np.abs(xp)) + np.max(np.abs(x0)))
    # ---- acceptance
    if case["corr"] == "none":
        accept, sure = True, True
    else:
        with np.errstate(all="ignore"):
            dE = U1 - U0 + dK
            a = np.exp(-dE)
        a = 0. if np.isnan(a) else min(1., a)
        mv = rec["params"].get("max_val")
        if kind == "qn" and mv is not None:
            big = max(np.max(np.abs(xp)), np.max(np.abs(p_acc)))
            if abs(big - float(mv)) < 1e-3 * (1 + big):
                return
            if big > float(mv):
                a = 0.
                o.bump("probe:max_val exceeded")
        etol = mult * 1e-5 * (10 + abs(U0) + abs(U1) + abs(dK)) if np.isfinite(U0) and np.isfinite(U1) else 0.
        atol = min(1., 1e-5 + a * etol * 3) if a > 0 else 0.
        if etol > 0.05:
            return
        got = float(np.asarray(rec["out"]["alpha"])) if "alpha" in rec["out"] else None
        if got is not None:
            check(abs(got - a) <= atol + 2e-4, prefix + "alpha", "step %d: acceptance probability %r, algorithm gives %r (U0=%r U1=%r dK=%r)",
                  i, got, a, U0, U1, dK)
        if u is None:
            o.bump("probe:unparsed decision")
            return
        sure = abs(u - a) > atol or a == 0. or (a == 1. and (not np.isfinite(dE) or dE < -etol))
        accept = u < a
        if u in (0.,) and a == 0.:
            o.bump("probe:u=0 at alpha=0")
        if u > 0.9999 and a == 1.:
            o.bump("probe:u~1 at alpha=1")
    if not sure:
        o.bump("probe:borderline decision skipped")
        return
    if accept:
        check(close(x1, xp, 0, tol), prefix + "proposal", "step %d from %s: moved to %s, algorithm accepts and moves to %s", i, x0, x1, xp)
    else:
        check(close(x1, x0, 0, 1e-6), prefix + "accept-reject", "step %d from %s: moved to %s although u=%r >= alpha (proposal %s)", i, x0, x1, u, xp)
    if p_rej is not None:
        want = p_acc if accept else p_rej
        ptol = tol * (1 + np.max(np.abs(want)) + np.max(np.abs(g)) * step)
        check(close(rec["out"]["momenta"], want, 1e-3, ptol), prefix + "momentum", "step %d (%s): momentum %s, algorithm gives %s", i,
              "accepted" if accept else "rejected", rec["out"]["momenta"], want)
    o.bump("probe:step refined")


def check_memory(case, scen, rec, i, temp, o, prefix):
    a, b = rec["in"]["memory"], rec["out"]["memory"]
    if not np.all(np.isfinite(b["ps"])) or not np.all(np.isfinite(b["us"])):
        return False
    check(close(b["value"][:-1], a["value"][1:], 1e-6, 1e-6) and close(b["value"][-1], rec["in"]["value"], 1e-6, 1e-6),
          prefix + "memory", "step %d: memory %s does not hold the latest positions (was %s, position %s)", i, b["value"], a["value"],
          rec["in"]["value"])
    for k in ("grad_prior_potential", "grad_likelihood_potential"):
        check(close(b[k][-1], rec["in"][k], 1e-5, 1e-5), prefix + "memory", "step %d: memory %s is %s, position has %s", i, k, b[k][-1], rec["in"][k])
    h = float(np.asarray(b["init_hessian_sqrt_diag"]))
    d = b["value"].shape[-1]
    C = np.array([prod_sqrt(b["us"].astype(float), b["ts"].astype(float), e, h) for e in np.eye(d)]).T
    S = np.array([prod_sqrt(b["ps"].astype(float), b["qs"].astype(float), e, 1 / h) for e in np.eye(d)]).T
    B, Bi = C @ C.T, S @ S.T
    if np.linalg.cond(B) > 1e3 or np.max(np.abs(B)) > 1e3 or np.max(np.abs(Bi)) > 1e3:
        return False
    check(close(B @ Bi, np.eye(d), 0, 0.03), prefix + "mass-matrix", "step %d: momentum covariance %s and inverse mass %s disagree", i, B.tolist(), Bi.tolist())
    ref = bfgs_reference(b, temp, case["settings"].get("sort_bfgs"), float(case["settings"].get("pos_def_r", 0.5)), h)
    if ref is not None and np.linalg.cond(ref) < 1e3:
        o.bump("probe:mass matrix refined")
        check(close(B, ref, 0.03, 0.03 * (1 + np.max(np.abs(ref)))), prefix + "mass-matrix", "step %d: mass matrix %s, BFGS gives %s", i, B.tolist(), ref.tolist())
    return True


# ------------------------------------------------------------------ C05
def check_tuning(case, scen, sampler, chain, ups, temp, given, ctx, o):
    n, d = case["n"], case["target"]["dim"]
    name = case.get("tune", "stepsize")
    check(hasattr(chain, name), "tuning-missing", "chain does not record %s", name)
    par = np.asarray(getattr(chain, name), float)
    alpha = np.asarray(chain.alpha, float)
    check(par.shape == (n,), "tuning-missing", "%s recorded with shape %s for %d states", name, par.shape, n)
    start = case["settings"].get(name)
    start = 2.38 ** 2 / d if start is None else start
    check(close(par[0], start, 1e-5, 1e-6), "tuning-start", "%s starts at %r, expected %r", name, par[0], start)
    target = case.get("target_rate", {"rw": 0.234, "ud": 0.651, "qn": 0.651}[case["kind"]])
    sign = 1 if case.get("mono") == "increasing" else -1
    rm = case["rm"]
    cut = rm.get("adapt_cut_off", np.inf)
    for i in range(1, n):
        if i <= cut:
            g = rm["rm_stepsize_scale"] * float(i) ** -rm["rm_stepsize_neg_exponent"]
            a = alpha[i]
            check(np.isfinite(a), "tuning-metric", "state %d: acceptance metric %r", i, a)
            with np.errstate(all="ignore"):
                want = np.exp(np.log(par[i - 1]) - g * (a - target) * sign) if rm["log_update"] else par[i - 1] - g * (a - target) * sign
        else:
            want = par[i - 1]
            o.bump("probe:after cut-off")
        if np.isfinite(want) and abs(want) < 1e30:
            check(close(par[i], want, 2e-4, 1e-6 if not rm["log_update"] else 0.), "tuning-recursion",
                  "state %d: %s=%r, recursion from %r with alpha %r gives %r", i, name, par[i], par[i - 1], alpha[i], want)
            if rm["log_update"] and want > 1e-35:
                check(par[i] > 0 and np.isfinite(par[i]), "tuning-positive", "state %d: %s=%r", i, name, par[i])
    # failed evaluations count as rejections
    if not case["compiled"] and len(ups) == n - 1:
        for i, rec in enumerate(ups, 1):
            evs = [e for e in ctx.events[rec["ev0"]:rec["ev1"]] if e["x"] is not None]
            if case["kind"] == "rw" and any(e["out"] is not None and not np.all(np.isfinite(e["out"])) for e in evs):
                if np.isfinite(rec["in"]["potential"]):
                    o.bump("probe:failed evaluation as rejection")
                    check(alpha[i] == 0., "tuning-failed-eval", "state %d: failed evaluation with acceptance metric %r", i, alpha[i])
            used = par[i - 1]
            if case["kind"] == "rw" and np.isfinite(used) and used > 0:
                zu = parse(ctx, rec, d)
                if zu is None:
                    continue
                x0 = np.asarray(rec["in"]["value"], float)
                if name == "stepsize":
                    one_step(case, scen, rec, i, x0, float(used), zu[0], zu[1], temp, ctx, o, "tuning-use-")
            elif name == "stepsize" and np.isfinite(used) and used > 0:
                zu = parse(ctx, rec, d)
                if zu is not None:
                    one_step(case, scen, rec, i, np.asarray(rec["in"]["value"], float), float(used), zu[0], zu[1], temp, ctx, o, "tuning-use-")
