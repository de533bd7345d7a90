"""C17: Stein variational gradient descent under simulated draws and failing gradients."""
import numpy as np
import jax.numpy as jnp
from jax.example_libraries import optimizers
import mocat
from mocat import kernels
import mcmc
import seams
import shr
from engine import fingerprint
from world import Target, gen_target, DrawPlan, T, check, close, key_of

SVGD = mocat.transport.SVGD if hasattr(mocat, "transport") and hasattr(mocat.transport, "SVGD") else mocat.SVGD


def gen(prop, rng, i, tier):
    big = tier == "thorough"
    compiled = rng.random() < 0.1
    n = rng.randint(2, 7 if not big else 14)
    c = {"prop": prop, "n": n, "key": rng.randrange(1 << 30), "compiled": compiled, "iters": rng.randint(1, 6 if not big else 12),
         "target": gen_target(rng, faults=True, temperature=True, n_calls=6 * n, compiled=compiled),
         "step": rng.choice([0.05, 0.3, 1., "decay", "grow"]), "opt": rng.choice(["adagrad", "adagrad", "sgd", "adam", "momentum"]),
         "kernel": rng.choice(["default", "default", "default", "gauss", "imq", "prec", "params"]), "bw": rng.choice([0.4, 1., 2.5]),
         "beta": rng.choice([-0.5, -0.3]), "c": rng.choice([1., 0.5]), "init": rng.random() < 0.4, "batch": None}
    if rng.random() < 0.45 and not compiled:
        c["batch"] = rng.randint(1, n + 1)
    elif rng.random() < 0.3:
        c["batch"] = n
    if rng.random() < 0.5:
        c["target"]["faults"] = {"mode": "none"}
    elif c["target"]["faults"]["mode"] == "region":
        c["target"]["faults"]["thr"] = rng.choice([0.9, 0.98])
    if c["opt"] == "adagrad" and rng.random() < 0.3:
        c["optp"] = {"momentum": rng.choice([0., 0.5])}
    if c["opt"] == "adam" and rng.random() < 0.3:
        c["optp"] = {"b1": 0.5}
    if c["opt"] == "momentum":
        c["optp"] = {"mass": rng.choice([0.5, 0.9])}
    if c["opt"] in ("sgd", "momentum"):
        c["step"] = rng.choice([0.05, 0.3, "decay"])
    return c


def shrinks(case):
    yield from shr.candidates(
        case, ints=[("n", 2), ("iters", 1), ("target.dim", 1)] + ([("batch", 1)] if case["batch"] else []), lists=["target.faults.calls"],
        sets=[("target.faults", {"mode": "none"}), ("target.lik", "gauss"), ("target.prior", "flat"), ("opt", "sgd") if not case.get("optp") else ("opt", case["opt"]),
              ("step", 0.3), ("kernel", "default"), ("compiled", False), ("batch", None), ("init", False)])


def step_fun(case):
    if case["step"] == "decay":
        return lambda i: 0.5 * i ** -0.5
    if case["step"] == "grow":
        return lambda i: 0.02 * i
    return case["step"]


def precision(case):
    d = case["target"]["dim"]
    a = np.random.default_rng(case["key"] % 97).normal(size=(d, d)) * 0.4
    return np.asarray(np.eye(d) + a @ a.T, np.float32)


def build(case):
    scen = Target(case["target"])
    kw = {"stepsize": step_fun(case), "max_iter": case["iters"], "ensemble_batchsize": case["batch"]}
    if case["opt"] != "adagrad" or case["key"] % 2:
        kw["optimiser"] = getattr(optimizers, case["opt"])
    kw.update(case.get("optp", {}))
    k = case["kernel"]
    if k == "gauss":
        kw["kernel"] = kernels.Gaussian(bandwidth=case["bw"])
    elif k == "imq":
        kw["kernel"] = kernels.IMQ(c=case["c"], beta=case["beta"], bandwidth=case["bw"])
    elif k == "prec":
        kw["kernel"] = kernels.PreconditionedGaussian(bandwidth=case["bw"], precision=jnp.asarray(precision(case)))
    elif k == "params":
        kw["kernel"] = kernels.Gaussian()
        kw["kernel_params"] = mocat.cdict(bandwidth=case["bw"])
    init = None
    if case["init"]:
        r = np.random.default_rng(case["key"])
        init = mocat.cdict(value=jnp.asarray(r.normal(size=(case["n"], case["target"]["dim"])), jnp.float32))
    return scen, T(SVGD)(**kw), init


def run(case, o):
    scen, sampler, init = build(case)
    with seams.Ctx(step=not case["compiled"], record=not case["compiled"]) as ctx:
        chain = mocat.run(scen, sampler, case["n"], key_of(case["key"]), initial_state=init)
    o.bump("ticks", ctx.ticks)
    for k, v in scen.faults.fired.items():
        o.bump("fault:" + k, v)
    n, d, S = case["n"], case["target"]["dim"], case["iters"] + 1
    V, G, P = np.asarray(chain.value, float), np.asarray(chain.grad_potential, float), np.asarray(chain.potential, float)
    check(V.shape[0] == S, "iterations", "%d iterations asked, %d records after the initial ensemble", case["iters"], V.shape[0] - 1)
    check(V.shape == (S, n, d) and G.shape == (S, n, d) and P.shape == (S, n), "record-shape", "value %s gradients %s potentials %s", V.shape, G.shape, P.shape)
    ups = ctx.stats.get("updates", [])
    check_start(case, V, init, ups, ctx)
    bws = check_bandwidth(case, chain, V, o)
    check_positions(case, scen, V, G, P, ctx, ups, o)
    check_moves(case, V, G, bws, ups, ctx, o)
    o.fp = fingerprint(case["opt"], case["kernel"], case["batch"], np.round(V, 3).tolist())
    o.nontrivial = bool(np.isfinite(V[1:]).any())


def check_start(case, V, init, ups, ctx):
    n, d = case["n"], case["target"]["dim"]
    if init is not None:
        check(close(V[0], np.random.default_rng(case["key"]).normal(size=(n, d)).astype(np.float32), 0, 0), "initial-ensemble",
              "the first record is not the given ensemble")
    elif not case["compiled"]:
        if case["target"].get("has_prior_sample", True):
            outs = [e["out"] for e in ctx.events if e["cb"] == "prior_sample"]
            ok = all(any(close(x, y, 0, 0) for y in outs) for x in V[0])
        else:
            dr = [np.asarray(t["out"]) for t in ctx.tape if t["op"] == "normal" and not t["user"]]
            rows = np.concatenate([x.reshape(-1, d) for x in dr if x.size % d == 0]) if dr else np.zeros((0, d))
            ok = all(any(close(x, y, 0, 0) for y in rows) for x in V[0])
        check(ok, "initial-ensemble", "the first record %s was not drawn from the prior", V[0])
        check(len(np.unique(V[0], axis=0)) == n, "initial-ensemble", "two initial particles are equal: %s", V[0])


def adapted(case):
    return case["kernel"] == "default"


def check_bandwidth(case, chain, V, o):
    S, n = V.shape[:2]
    if not adapted(case):
        return np.full(S, case["bw"])
    D = np.sqrt(np.sum((V[:, :, None] - V[:, None]) ** 2, -1))
    want = D.mean((1, 2)) / np.sqrt(2 * np.log(n))
    kp = getattr(chain, "kernel_params", None)
    if kp is not None and hasattr(kp, "bandwidth"):
        got = np.asarray(kp.bandwidth, float)
        check(got.shape == (S,) and close(got, want, 1e-4, 1e-5 * (1 + np.nanmax(np.abs(V)) if np.isfinite(V).any() else 1)), "bandwidth",
              "recorded bandwidths %s, the ensembles give %s", got, want)
    return want


def check_positions(case, scen, V, G, P, ctx, ups, o):
    called = {tuple(e["x"].ravel().tolist()): e["act"] for e in ctx.events if e["x"] is not None and e["act"]}
    temp = float(np.asarray(scen.temperature))
    for t in range(len(V)):
        for j in range(V.shape[1]):
            x = V[t, j]
            if not np.all(np.isfinite(x)) or scen.near_region_edge(x) or np.max(np.abs(x)) > 1e4:
                continue
            if tuple(np.asarray(x, np.float32).tolist()) in called:
                o.bump("fault:evaluation spoiled")
                continue
            p, l = scen.np_prior(x), scen.np_lik(x)
            want = p + temp * l
            tol = mcmc.scale_tol(x)
            if not np.isfinite(want):
                check(not np.isfinite(P[t, j]), "potential-mismatch", "record %d particle %d at %s: potential %r, position has %r", t, j, x, P[t, j], want)
                continue
            check(abs(P[t, j] - want) <= tol + 1e-3 * (abs(p) + abs(l)), "potential-mismatch", "record %d particle %d at %s: potential %r, position has %r", t, j, x, P[t, j], want)
            g = np.asarray(scen.np_gprior(x)) + temp * np.asarray(scen.np_glik(x))
            check(close(G[t, j], g, 2e-3, mcmc.scale_tol(x, 5e-4)), "gradient-mismatch", "record %d particle %d at %s: gradient %s, position has %s", t, j, x, G[t, j], g)


def kern(case, X, bw):
    """k[j, i] and the derivative with respect to x_j."""
    diff = (X[:, None] - X[None]) / bw
    if case["kernel"] == "imq":
        base = case["c"] + 0.5 * np.sum(diff ** 2, -1)
        return base ** case["beta"], case["beta"] * (base ** (case["beta"] - 1))[..., None] * diff / bw
    M = precision(case).astype(float) if case["kernel"] == "prec" else np.eye(X.shape[1])
    k = np.exp(-0.5 * np.einsum("jia,ab,jib->ji", diff, M, diff))
    return k, -k[..., None] * (diff @ M) / bw


def direction(case, X, G, bw, B):
    """phi and a bound on its rounding error."""
    with np.errstate(all="ignore"):
        k, dk = kern(case, X, bw)
        phi, err = np.zeros_like(X), np.zeros_like(X)
        for i in range(len(X)):
            terms = -k[B[i], i][:, None] * G[B[i]] + dk[B[i], i]
            phi[i] = terms.mean(0)
            err[i] = (np.abs(k[B[i], i][:, None] * G[B[i]]) + np.abs(dk[B[i], i])).mean(0)
    return phi, err


def check_moves(case, V, G, bws, ups, ctx, o):
    n, d = V.shape[1:]
    optp = case.get("optp", {})
    oi, ou, gp = getattr(optimizers, case["opt"])(step_size=step_fun(case), **optp)
    K = 5
    rng = np.random.default_rng(3)
    states = [oi(jnp.asarray(V[0], jnp.float32)) for _ in range(K)]
    for t in range(1, len(V)):
        if case["batch"] is None or case["batch"] == n:
            B = np.repeat(np.arange(n)[None], n, 0)
        else:
            if t - 1 >= len(ups):
                return
            rec = ups[t - 1]
            dr = [np.asarray(x["out"]) for x in ctx.tape[rec["tape0"]:rec["tape1"]] if not x["user"] and x["op"] not in ("split", "fold_in")
                  and np.issubdtype(np.asarray(x["out"]).dtype, np.integer) and np.asarray(x["out"]).size == n * case["batch"]]
            if len(dr) != 1:
                ints = [x for x in ctx.tape[rec["tape0"]:rec["tape1"]] if not x["user"] and x["op"] in ("choice", "randint", "permutation", "categorical")]
                check(bool(ints), "batch-missing", "step %d: a mini-batch of %d of %d particles is configured but nothing was drawn", t, case["batch"], n)
                check(len(ints) != 1, "batch-size", "step %d: drew indices of shape %s, mini-batches of %d configured for %d particles", t,
                      np.asarray(ints[0]["out"]).shape, case["batch"], n)
                o.bump("other:draws not recognised")
                return
            B = dr[0].reshape(n, case["batch"])
            check(B.min() >= 0 and B.max() < n, "batch-range", "step %d: mini-batch indices %s of %d particles", t, B.tolist(), n)
            o.bump("probe:mini-batch step")
        X, g = V[t - 1], G[t - 1]
        phi, err = direction(case, X, g, bws[t - 1], B)
        x0 = [np.asarray(gp(s), float) for s in states]
        step = []
        for q in range(K):
            p = phi if q == 0 else phi + rng.uniform(-1, 1, phi.shape) * (5e-6 * err + 1e-9)
            states[q] = ou(t, jnp.asarray(-p, jnp.float32), states[q])
            step.append(np.asarray(gp(states[q]), float) - x0[q])
        got = V[t] - X
        bad = ~np.isfinite(phi)
        if bad.any() or not np.isfinite(got).all() or not np.isfinite(X).all():
            fin = np.isfinite(step[0])
            check(bool(np.all(np.isfinite(V[t])[fin & np.isfinite(X)])) or not np.isfinite(X).all(), "nan-move",
                  "step %d: particles moved to %s although their directions %s are finite", t, V[t], phi)
            o.bump("fault:undefined direction")
            return
        if np.max(np.abs(V[t])) > 1e5 or np.max(np.abs(phi)) > 1e8:
            o.bump("probe:diverged")
            return
        dev = np.max([np.abs(s - step[0]) for s in step[1:]], 0)
        tol = 8 * dev + 3e-6 * (1 + np.abs(X) + np.abs(V[t])) + 2e-4 * np.abs(step[0])
        ok = np.abs(got - step[0]) <= tol
        check(bool(ok.all()), "step", "step %d: ensemble moved by %s, %s of the direction %s gives %s", t, np.round(got, 6).tolist(), case["opt"], np.round(phi, 6).tolist(), np.round(step[0], 6).tolist())
        o.bump("probe:move checked")
