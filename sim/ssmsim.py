"""C09, C10, C11, C20: particle filters and smoothers under simulated histories, draws and failing models."""
import os
import shutil
import tempfile
import numpy as np
import jax.numpy as jnp
from jax import random
import mocat
from mocat import ssm
import seams
import shr
from engine import fingerprint
from seams import Interrupted, InjectedError, concrete
from world import (Faults, user_event, user_code, spoil, region_bad, DrawPlan, snap, check, close, same, key_of)

FILTERS = ["boot", "boot", "general", "optimal", "enkf"]


# ------------------------------------------------------------------------------------------------ harness models
def mats(spec):
    r = np.random.default_rng(spec["seed"])
    d, k = spec["dim"], spec["dim_obs"]
    F = np.asarray(0.4 * r.normal(size=(d, d)) + 0.5 * np.eye(d), np.float32)
    H = np.asarray(r.normal(size=(k, d)), np.float32)
    A = 0.3 * r.normal(size=(d, d))
    B = 0.3 * r.normal(size=(k, k))
    Q = np.asarray(spec["q"] ** 2 * (np.eye(d) + (A @ A.T if spec.get("full_cov") else 0.)), np.float32)
    R = np.asarray(spec["r"] ** 2 * (np.eye(k) + (B @ B.T if spec.get("full_cov") else 0.)), np.float32)
    return F, H, Q, R


class _Base:
    def np_mean(self, x, t0, t1):
        x = np.asarray(x, float)
        m = self.F.astype(float) @ x + self.spec["drift"] * (float(t1) - float(t0))
        if self.spec.get("sin"):
            m = m + 0.5 * np.sin(x)
        return m

    def _mean(self, x, t0, t1):
        m = self.F @ x + self.spec["drift"] * (t1 - t0)
        if self.spec.get("sin"):
            m = m + 0.5 * jnp.sin(x)
        return m


class SimSSM(_Base, ssm.StateSpaceModel):
    name = "sim ssm"

    def __init__(self, spec):
        self.spec = spec
        self.dim, self.dim_obs = spec["dim"], spec["dim_obs"]
        self.F, self.H, self.Q, self.R = mats(spec)
        self.faults = Faults(spec.get("faults"))
        super().__init__()

    # float64 views
    def np_trans(self, x0, t0, x1, t1, edge=None):
        """Transition potential; None when too near the edge of the support to be judged."""
        z = np.asarray(x1, float) - self.np_mean(x0, t0, t1)
        q = self.spec["q"]
        if self.spec["noise"] == "unif":
            a = np.max(np.abs(z))
            if abs(a - q) < 1e-4 * (1 + np.max(np.abs(x1))):
                return None
            return len(z) * np.log(2 * q) if a <= q else np.inf
        return 0.5 * np.sum(z ** 2) / q ** 2 + len(z) * np.log(q)

    def np_lik(self, x, y, t):
        """None near the edge of the impossible region."""
        x = np.asarray(x, float)
        v = 0.5 * np.sum((np.asarray(y, float) - self.H.astype(float) @ x - self.spec["a"] * float(t)) ** 2) / self.spec["r"] ** 2
        f = self.faults.plan
        if f["mode"] == "region" and any(abs(float(t) - b) < 1e-6 for b in f["times"]):
            s = np.sin(np.float32(f["freq"]) * np.sum(np.asarray(x, np.float32) * np.arange(1, len(x) + 1)))
            if abs(s - f["thr"]) < 1e-2:
                return None
            if s > f["thr"]:
                return np.inf if f["kind"] == "inf" else np.nan
        return v

    # mocat API
    def initial_potential(self, x, t):
        return 0.5 * jnp.sum(x ** 2) / self.spec["init"] ** 2

    def initial_sample(self, t, random_key):
        ev = user_event("initial_sample", None, random_key, self.faults, {"t1": concrete(t)})
        with user_code():
            v = self.spec["init"] * random.normal(random_key, (self.dim,))
        if self.spec.get("scalar_init") and self.dim == 1:
            v = v[0]
        if ev is not None:
            ev["out"] = concrete(v)
        return v

    def _pot(self, x0, t0, x1, t1):
        z = x1 - self._mean(x0, t0, t1)
        q = self.spec["q"]
        if self.spec["noise"] == "unif":
            return jnp.where(jnp.max(jnp.abs(z)) <= q, self.dim * np.log(2 * q), jnp.inf)
        return 0.5 * jnp.sum(z ** 2) / q ** 2 + self.dim * np.log(q)

    def transition_potential(self, x_previous, t_previous, x_new, t_new):
        ev = user_event("transition_potential", x_previous, None, self.faults,
                        {"t0": concrete(t_previous), "x1": concrete(x_new), "t1": concrete(t_new)})
        v = self._pot(x_previous, t_previous, x_new, t_new)
        if ev is not None:
            v = spoil(v, ev["act"])
            ev["out"] = concrete(v)
        return v

    def transition_sample(self, x_previous, t_previous, t_new, random_key):
        ev = user_event("transition_sample", x_previous, random_key, self.faults,
                        {"t0": concrete(t_previous), "t1": concrete(t_new)})
        with user_code():
            if self.spec["noise"] == "unif":
                z = random.uniform(random_key, (self.dim,), minval=-1., maxval=1.)
            else:
                z = random.normal(random_key, (self.dim,))
        v = self._mean(x_previous, t_previous, t_new) + self.spec["q"] * z
        if ev is not None:
            ev["out"] = concrete(v)
        return v

    def likelihood_potential(self, x, y, t):
        ev = user_event("likelihood_potential", x, None, self.faults, {"y": concrete(y), "t1": concrete(t)})
        x = jnp.atleast_1d(x)
        v = 0.5 * jnp.sum((y - self.H @ x - self.spec["a"] * t) ** 2) / self.spec["r"] ** 2
        f = self.faults.plan
        if f["mode"] == "region":
            on = jnp.any(jnp.abs(jnp.asarray(t) - jnp.asarray(f["times"] or [-1e9])) < 1e-6)
            bad = jnp.logical_and(on, region_bad(jnp, x, f["freq"], f["thr"]))
            v = jnp.where(bad, jnp.inf if f["kind"] == "inf" else jnp.nan, v)
        if ev is not None:
            v = spoil(v, ev["act"])
            ev["out"] = concrete(v)
            if ev["out"] is not None and ev["act"] is None and not np.isfinite(ev["out"]):
                self.faults.note("region")
        return v


class GeneralFilter(ssm.ParticleFilter):
    """A user's filter: proposal shifted towards the observation."""

    def _pm(self, m, x, t0, y, t1):
        mu = m._mean(x, t0, t1)
        return mu + 0.2 * (m.H.T @ (y - m.H @ mu))

    def np_prop(self, m, x0, t0, x1, y, t1):
        mu = m.np_mean(x0, t0, t1)
        H = m.H.astype(float)
        mu = mu + 0.2 * (H.T @ (np.asarray(y, float) - H @ mu))
        s = 1.3 * m.spec["q"]
        return 0.5 * np.sum((np.asarray(x1, float) - mu) ** 2) / s ** 2 + len(mu) * np.log(s)

    def proposal_sample(self, ssm_scenario, x_previous, t_previous, y_new, t_new, random_key):
        m = ssm_scenario
        ev = user_event("proposal_sample", x_previous, random_key, m.faults,
                        {"t0": concrete(t_previous), "t1": concrete(t_new), "y": concrete(y_new)})
        with user_code():
            z = random.normal(random_key, (m.dim,))
        v = self._pm(m, x_previous, t_previous, y_new, t_new) + 1.3 * m.spec["q"] * z
        if ev is not None:
            ev["out"] = concrete(v)
        return v

    def proposal_potential(self, ssm_scenario, x_previous, t_previous, x_new, y_new, t_new):
        m = ssm_scenario
        s = 1.3 * m.spec["q"]
        return 0.5 * jnp.sum((x_new - self._pm(m, x_previous, t_previous, y_new, t_new)) ** 2) / s ** 2 + m.dim * np.log(s)


class SimNLG(_Base, ssm.NonLinearGaussian):
    name = "sim nlg"

    def __init__(self, spec):
        self.spec = spec
        F, H, Q, R = mats(spec)
        self.F, self.H, self.Q, self.R = F, H, Q, R
        self.faults = Faults(spec.get("faults"))
        super().__init__(initial_mean=jnp.zeros(spec["dim"]), initial_covariance=jnp.eye(spec["dim"]) * spec["init"] ** 2,
                         transition_covariance=jnp.asarray(Q), likelihood_matrix=jnp.asarray(H),
                         likelihood_covariance=jnp.asarray(R))

    def transition_function(self, x_previous, t_previous, t_new):
        ev = user_event("transition_function", x_previous, None, self.faults,
                        {"t0": concrete(t_previous), "t1": concrete(t_new)})
        v = self._mean(x_previous, t_previous, t_new)
        if ev is not None:
            ev["out"] = concrete(v)
        return v

    def np_trans(self, x0, t0, x1, t1):
        z = np.asarray(x1, float) - self.np_mean(x0, t0, t1)
        return 0.5 * z @ np.linalg.solve(self.Q.astype(float), z)


def build(case):
    spec = case["model"]
    if case["filter"] in ("optimal", "enkf"):
        m = SimNLG(spec)
        f = ssm.OptimalNonLinearGaussianParticleFilter() if case["filter"] == "optimal" else ssm.EnsembleKalmanFilter()
    else:
        m = SimSSM(spec)
        f = ssm.BootstrapFilter() if case["filter"] == "boot" else GeneralFilter()
    return m, f


def gen_model(rng, filt, T, times, faults=True, calls=False):
    d = rng.choice([1, 1, 2, 3])
    spec = {"dim": d, "dim_obs": rng.choice([1, 2, 3]), "seed": rng.randrange(1000), "drift": round(rng.uniform(-1, 1), 2),
            "q": rng.choice([0.3, 0.7, 1.2, 0.05]), "r": rng.choice([0.4, 1., 2.]), "init": rng.choice([0.5, 1., 2.]),
            "a": rng.choice([0., 0.3]), "noise": "gauss", "sin": rng.random() < 0.4, "faults": {"mode": "none"}}
    if filt in ("optimal", "enkf"):
        spec["q"] = max(spec["q"], 0.3)
        spec["a"] = 0.
        spec["full_cov"] = rng.random() < 0.5
        return spec
    spec["scalar_init"] = d == 1 and rng.random() < 0.2
    if rng.random() < 0.35:
        spec["noise"] = "unif"
        spec["q"] = max(spec["q"], 0.3)
    if faults and rng.random() < 0.5:
        spec["faults"] = {"mode": "region", "kind": rng.choice(["nan", "inf"]), "freq": rng.choice([1., 2., 3.]),
                          "thr": rng.choice([0., 0.5, 0.8]), "times": [times[k] for k in range(T) if rng.random() < 0.5]}
    elif calls and rng.random() < 0.6:
        spec["faults"] = {"mode": "call", "calls": [["likelihood_potential", rng.randint(0, 8 * T), rng.choice(["nan", "inf"])]
                                                    for _ in range(rng.randint(1, 4))]}
    return spec


def gen(prop, rng, i, tier):
    T = rng.randint(2, 6)
    if tier == "thorough" and rng.random() < 0.2:
        T = rng.randint(6, 12)
    times = [round(rng.uniform(-0.5, 2.), 2)]
    for _ in range(T - 1):
        times.append(round(times[-1] + rng.choice([0.25, 1., 1., 0.1, 2.5]), 2))
    times = [float(np.float32(t)) for t in times]
    filt = rng.choice(FILTERS if prop in ("C09", "C20") else ["boot", "boot", "boot", "general"])
    c = {"prop": prop, "filter": filt, "n": rng.choice([2, 3, 4, 4, 5, 7]), "key": rng.randrange(1 << 30), "times": times,
         "compiled": False, "thr": rng.choice([0.5, 0.5, 0.9, 1.1, 0., 0.3])}
    c["model"] = gen_model(rng, filt, T, times, faults=True, calls=prop == "C20")
    out = rng.random() < 0.25
    c["ys"] = [[round(rng.gauss(0, 1) + (8. if out and rng.random() < 0.4 else 0.), 2) for _ in range(c["model"]["dim_obs"])]
               for _ in range(T)]
    c["draws"] = {"uniform": {}, "normal": {}, "cat": {}}
    if prop == "C09":
        c["compiled"] = rng.random() < 0.06
        c["full"] = rng.random() < 0.5
        c["ops"] = gen_ops(rng, T, c["compiled"])
        c["resume"] = rng.randint(0, T - 2)
        c["flat_y"] = c["model"]["dim_obs"] == 1 and rng.random() < 0.3
        if c["compiled"]:
            c["n"] = rng.choice([3, 4])
    elif prop == "C20":
        c["mode"] = rng.choice(["batch", "online", "online"])
        c["full"] = rng.random() < 0.5
        c["tie"] = rng.random() < 0.25      # the resampling threshold is exactly an effective sample size that occurs
        if rng.random() < 0.5:
            c["draws"]["cat"] = {str(rng.randrange(T)): rng.choice(["min", "last"]) for _ in range(rng.randint(1, 2))}
    elif prop == "C10":
        gen_c10(rng, c, T, tier)
    elif prop == "C11":
        c["lag"] = rng.choice([1, 1, 2, 2, 3, 4])
        c["bs"] = rng.random() < 0.5
        c["ops"] = gen_ops(rng, T, False)
        c["maxrej"] = rng.choice([0, 0, 1, 2, 4, 8])
        c["bound"] = rng.choice([0., 0., 0.5, 2., 1e-6])
        c["infl"] = rng.choice([1.01, 1.01, 1.5, 2.])
        if rng.random() < 0.3:
            c["draws"]["cat"] = {str(rng.randrange(12 * T)): rng.choice(["min", "last"]) for _ in range(rng.randint(1, 4))}
        if rng.random() < 0.3:
            c["draws"]["uniform"] = {str(rng.randrange(12 * T)): rng.choice([0., 1. - 2. ** -24]) for _ in range(rng.randint(1, 4))}
    return c


def gen_c10(rng, c, T, tier):
    c["nsamps"] = rng.choice([None, 1, 2, 3, 5])
    c["maxrej"] = rng.choice([0, 0, 1, 2, 3, 6, 12])
    c["bound"] = rng.choice([0., 0., 0.5, 3., 1e-6, 100.])
    c["infl"] = rng.choice([1.01, 1.01, 1.01, 1.3, 2.])
    c["source"] = rng.choice(["batch", "online", "synthetic", "synthetic", "ffbsi"])
    if c["model"]["noise"] == "unif" and c["source"] == "synthetic":
        c["source"] = "batch"
    if rng.random() < 0.25 and c["maxrej"] == 0 and c["source"] != "ffbsi":
        c["calls"] = [[rng.randrange(c["n"] ** 2 * T), "nan"] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3:
        c["draws"]["cat"] = {str(rng.randrange(10 * T)): rng.choice(["min", "last"]) for _ in range(rng.randint(1, 4))}
    if rng.random() < 0.5:
        c["draws"]["uniform"] = {str(rng.randrange(10 * T)): rng.choice([0., 1. - 2. ** -24]) for _ in range(rng.randint(1, 6))}


def gen_ops(rng, T, compiled):
    ops = []
    for _ in range(rng.randint(1, 2 * T)):
        r = rng.random()
        if r < 0.4:
            ops.append(["deliver"])
        elif r < 0.55:
            ops.append(["save"])
        elif r < 0.7:
            ops.append(["crash"])
        elif r < 0.8:
            ops.append(["dup"])
        elif compiled:
            ops.append(["deliver"])
        elif r < 0.92:
            ops.append(["interrupt", round(rng.random(), 3)])
        else:
            ops.append(["raise", rng.choice(["transition_sample", "likelihood_potential", "transition_potential",
                                             "proposal_sample", "transition_function"]), rng.randint(0, 6)])
    return ops


def shrinks(case):
    T = len(case["times"])
    if T > 2:
        import copy
        for k in (T - 1, 0):
            c = copy.deepcopy(case)
            del c["times"][k], c["ys"][k]
            if "resume" in c:
                c["resume"] = max(0, min(c["resume"], len(c["times"]) - 2))
            yield c
    yield from shr.candidates(
        case, ints=[("n", 2), ("model.dim", 1), ("lag", 1), ("maxrej", 0), ("nsamps", 1)], lists=["ops"],
        dicts=["draws.uniform", "draws.cat"],
        sets=[("model.faults", {"mode": "none"}), ("model.sin", False), ("model.scalar_init", False), ("compiled", False),
              ("filter", "boot") if case["filter"] == "general" else ("filter", case["filter"]), ("model.full_cov", False)])


class SsmDraws(DrawPlan):
    """Adds legal but adversarial categorical choices: the least likely possible outcome."""

    def __init__(self, plan):
        super().__init__(plan)
        self.c = {int(k): v for k, v in (plan or {}).get("cat", {}).items()}
        self.ic = 0

    def __call__(self, name, key, a, kw, out):
        if name == "categorical":
            i = self.ic
            self.ic += 1
            if i in self.c:
                lg = np.asarray(a[0] if a else kw["logits"], float)
                if lg.ndim == 1 and np.any(lg > -np.inf) and not np.any(np.isnan(lg)):
                    self.fired += 1
                    ok = np.where(lg > -np.inf)[0]
                    j = ok[np.argmin(lg[ok])] if self.c[i] == "min" else ok[-1]
                    return jnp.zeros_like(out) + jnp.asarray(j, out.dtype)
            return out
        return super().__call__(name, key, a, kw, out)


def run(case, o):
    {"C09": run_c09, "C10": run_c10, "C11": run_c11, "C20": run_c20}[case["prop"]](case, o)


def data(case):
    return np.asarray(case["ys"], np.float32), np.asarray(case["times"], np.float32)


def note_faults(o, model, plan=None):
    for k, v in model.faults.fired.items():
        o.bump("fault:" + k, v)
    model.faults.fired.clear()
    if plan is not None and plan.fired:
        o.bump("fault:extreme draw", plan.fired)


def state_snap(p):
    s = snap(p)
    return {k: (dict(v) if isinstance(v, dict) else v) for k, v in s.items()}


def same_snap(a, b, exact=True, path=""):
    """Name of the first difference, or None."""
    if set(a) != set(b):
        return f"{path}fields {sorted(set(a) ^ set(b))}"
    for k in a:
        if isinstance(a[k], dict) or isinstance(b[k], dict):
            r = same_snap(a[k], b[k], exact, path + k + ".") if isinstance(a[k], dict) and isinstance(b[k], dict) else path + k
            if r:
                return r
        elif isinstance(a[k], np.ndarray) and isinstance(b[k], np.ndarray):
            if not (same(a[k], b[k]) if exact else close(a[k], b[k], 2e-3, 2e-3)):
                return path + k
        elif a[k] is not b[k] and not (a[k] == b[k]):
            return path + k
    return None


# ------------------------------------------------------------------------------------------------ C09
def run_c09(case, o):
    ys, ts = data(case)
    T, n = len(ts), case["n"]
    K = key_of(case["key"])
    init_key, step_keys = batch_keys(K, T)
    step = lambda m, f, p, k: ssm.propagate_particle_filter(m, f, p, jnp.asarray(ys[k]), ts[k] if k % 2 else jnp.asarray(ts[k]),
                                                            step_keys[k - 1], case["thr"], case["full"])
    ref, ticks = stream(case, o, init_key, step)
    # records
    for k in range(T):
        s = ref[k]
        check(same(np.asarray(s["y"]), ys[:k + 1]), "observations-record", "after %d observations of dimension %d the recorded y has shape %s: %s",
              k + 1, ys.shape[1], np.shape(s["y"]), np.asarray(s["y"]).ravel()[:6])
        check(same(np.asarray(s["t"]), ts[:k + 1]), "times-record", "recorded times %s, delivered %s", s["t"], ts[:k + 1])
        check(np.shape(s["ess"]) == (k + 1,), "ess-record", "ess has shape %s after %d observations", np.shape(s["ess"]), k + 1)
        check(np.shape(s["value"]) == (k + 1, n, case["model"]["dim"]), "value-shape", "value has shape %s", np.shape(s["value"]))
        check(np.shape(s["log_weight"]) == (k + 1, n), "weight-shape", "log_weight has shape %s", np.shape(s["log_weight"]))
        if k:
            check(same(s["ess"][:-1], ref[k - 1]["ess"]), "ess-history", "earlier ess changed at step %d", k)
            check(same(s["value"][:-2], ref[k - 1]["value"][:-1]) or case["full"], "value-history", "earlier particles changed at step %d", k)
    # batch
    m, f = build(case)
    with seams.Ctx(step=not case["compiled"], record=False) as ctx:
        yb = ys[:, 0] if case["flat_y"] else ys
        b = snap(ssm.run_particle_filter_for_marginals(m, f, jnp.asarray(yb), jnp.asarray(ts), K, n=n, ess_threshold=case["thr"]))
    o.bump("ticks", ctx.ticks)
    tol = (1e-3, 1e-3) if case["compiled"] else (1e-5, 1e-5)
    check(np.shape(b["value"]) == np.shape(ref[-1]["value"]), "batch-shape", "batch value has shape %s", np.shape(b["value"]))
    check(close(b["y"], ys) and close(b["t"], ts), "batch-record", "batch run recorded y %s t %s", b["y"], b["t"])
    for k in range(T):
        if not np.any(ref[k]["log_weight"][-1] > -np.inf):
            break
        if case["compiled"] and borderline(ref, k, case):
            break
        for nm, a in (("value", ref[k]["value"][-1]), ("log_weight", ref[k]["log_weight"][-1]), ("ess", ref[k]["ess"][-1])):
            check(close(b[nm][k], a, *tol), "batch-online-" + nm, "time %d: batch %s %s, online %s", k, nm, b[nm][k].ravel()[:6], np.ravel(a)[:6])
    # batch resumed from a streamed state, in a restarted process
    r = case["resume"]
    if np.any(ref[r]["log_weight"][-1] > -np.inf):
        resume(case, o, ref, r, ys, ts, tol)
    if np.any(ref[r]["log_weight"][-1] > -np.inf):
        direct_resample(case, o, r)
    o.fp = fingerprint(case["filter"], case["ops"], case["thr"], np.round(ref[-1]["value"], 3).tolist())
    o.nontrivial = T > 1


def direct_resample(case, o, r):
    """The resampling step called by itself on a streamed state: it is a step like any other."""
    m, f = build(case)
    st = online_to(case, m, f, r)
    for p, full in ((st, True), (st, False), (st[-1], True)):
        before = state_snap(p)
        V, lw = np.asarray(before["value"]), np.asarray(before["log_weight"])
        outs = []
        for _ in range(2):
            with seams.Ctx(step=not case["compiled"], record=False) as ctx:
                outs.append(state_snap(ssm.resample_particles(p, random.fold_in(key_of(case["key"]), 11), full)))
            o.bump("ticks", ctx.ticks)
            df = same_snap(before, state_snap(p))
            check(df is None, "input-altered", "resampling altered the particles it was given: %s", df)
        df = same_snap(outs[0], outs[1], not case["compiled"])
        check(df is None, "retry-differs", "resampling again with the same key differs in %s", df)
        a = outs[0]
        v, w = np.asarray(a["value"]), np.asarray(a["log_weight"])
        check(v.shape == V.shape and w.shape == lw.shape, "resampled-shape", "resampled particles have shapes %s %s", v.shape, w.shape)
        last, old = (lw, V[None]) if lw.ndim == 1 else (lw[-1], V)
        new = v[None] if lw.ndim == 1 else v
        check(np.all((w if lw.ndim == 1 else w[-1]) == 0), "resampled-weight", "log weights after resampling are %s", w)
        if lw.ndim > 1:
            check(same(w[:-1], lw[:-1]), "ess-history", "resampling changed earlier log weights")
        cols = old if full else old[-1:]
        newc = new if full else new[-1:]
        if not full:
            check(same(new[:-1], old[:-1]), "value-history", "resampling the latest particles only changed earlier ones")
        ok = np.where(last > -np.inf)[0]
        for i in range(newc.shape[1]):
            check(any(same(newc[:, i], cols[:, j]) for j in ok), "resampled-parent",
                  "resampled particle %d is none of the particles with weight", i)
    o.bump("probe:direct resampling")


def borderline(ref, k, case):
    return any(abs(float(e) - case["thr"] * case["n"]) < 0.01 * case["n"] for e in ref[k]["ess"])


def batch_keys(K, T):
    """Step keys of an uninterrupted batch run with key K."""
    k1, sub = random.split(K)
    return sub, random.split(k1, T - 1)


def resume(case, o, ref, r, ys, ts, tol):
    d = tempfile.mkdtemp(prefix="mocat-sim-")
    try:
        m, f = build(case)
        st = online_to(case, m, f, r)
        p = os.path.join(d, "s.cdict")
        st.save(p)
        before = state_snap(st)
        m, f = build(case)
        K2 = random.fold_in(key_of(case["key"]), 5)
        steps = random.split(K2, len(ts) - r - 1)
        yr, tr = jnp.asarray(ys[r + 1:]), jnp.asarray(ts[r + 1:])
        with seams.Ctx(step=not case["compiled"], record=False) as ctx:
            loaded = mocat.load_cdict(p)
            b = ssm.run_particle_filter_for_marginals(m, f, yr, tr, K2, initial_sample=loaded, ess_threshold=case["thr"])
            check(same_snap(before, state_snap(loaded)) is None, "batch-input-altered", "resuming changed the state given: %s",
                  same_snap(before, state_snap(loaded)))
            b = snap(b)
            q = mocat.load_cdict(p)
            on = []
            for j in range(len(tr)):
                q = ssm.propagate_particle_filter(m, f, q, yr[j], tr[j], steps[j], case["thr"], case["full"])
                on.append(snap(q))
        o.bump("ticks", ctx.ticks)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for nm in ("value", "log_weight", "y", "t", "ess"):
        check(np.shape(b[nm])[:1] == (len(ts),), "resumed-shape", "resumed %s has shape %s, %d times", nm, np.shape(b[nm]), len(ts))
        check(same(b[nm][:r + 1], before[nm]), "resumed-prefix", "resumed run changed the %s of the state it started from", nm)
    check(same(b["y"], ys) and same(b["t"], ts), "resumed-record", "resumed run recorded y %s t %s", b["y"].ravel()[:6], b["t"])
    for j, s in enumerate(on):
        if not np.any(s["log_weight"][-1] > -np.inf) or (case["compiled"] and borderline(on, j, case)):
            break
        for nm in ("value", "log_weight", "ess"):
            check(close(b[nm][r + 1 + j], s[nm][-1], *tol), "resumed-" + nm, "resumed batch differs from streaming at time %d: %s %s vs %s",
                  r + 1 + j, nm, np.ravel(b[nm][r + 1 + j])[:6], np.ravel(s[nm][-1])[:6])
    o.bump("probe:resumed batch run")


def online_to(case, m, f, r):
    ys, ts = data(case)
    sub, keys = batch_keys(key_of(case["key"]), len(ts))
    with seams.Ctx(step=not case["compiled"], record=False):
        p = ssm.initiate_particles(m, f, case["n"], sub, jnp.asarray(ys[0]), jnp.asarray(ts[0]))
        for k in range(1, r + 1):
            p = ssm.propagate_particle_filter(m, f, p, jnp.asarray(ys[k]), jnp.asarray(ts[k]), keys[k - 1], case["thr"], case["full"])
    return p


def stream(case, o, init_key, step, observer=None):
    """Runs the stream undisturbed, then again with the case's history of faults; both must agree at every step.
    Returns the snapshots of the undisturbed run and its ticks per step."""
    ys, ts = data(case)
    T, n = len(ts), case["n"]
    exact = not case["compiled"]
    m, f = build(case)

    def ctx_for(m):
        c = seams.Ctx(step=not case["compiled"], record=observer is not None and not case["compiled"])
        c.draw_hook = SsmDraws(case["draws"]) if case["draws"].get("cat") or case["draws"].get("uniform") else None
        return c

    def initiate(m, f):
        return ssm.initiate_particles(m, f, n, init_key, jnp.asarray(ys[0]), jnp.asarray(ts[0]))

    ref, ticks = [], []
    with ctx_for(m) as c:
        st = initiate(m, f)
    ref.append(state_snap(st))
    ticks.append(c.ticks)
    o.bump("ticks", c.ticks)
    first = st
    for k in range(1, T):
        before = state_snap(st)
        obj = dict(st.__dict__)
        with ctx_for(m) as c:
            new = step(m, f, st, k)
        note_faults(o, m, c.draw_hook)
        o.bump("ticks", c.ticks)
        d = same_snap(before, state_snap(st))
        check(d is None, "input-altered", "step %d altered the state object it was given: %s", k, d)
        check(new is not st, "input-returned", "step %d returned the object it was given", k)
        if observer is not None:
            observer(m, f, before, state_snap(new), k, c)
        st = new
        ref.append(state_snap(st))
        ticks.append(c.ticks)
    # ---- disturbed run
    m, f = build(case)
    d = tempfile.mkdtemp(prefix="mocat-sim-")
    path = os.path.join(d, "state.cdict")
    try:
        with ctx_for(m):
            st = initiate(m, f)
        k = 1
        saved = None
        lim = 0

        def attempt(k, fault=None):
            with ctx_for(m) as c:
                before = state_snap(st)
                if fault and fault[0] == "interrupt":
                    c.interrupt_at = max(1, int(fault[1] * ticks[k]))
                if fault and fault[0] == "raise":
                    m.faults.calls = {(fault[1], fault[2]): "raise"}
                try:
                    new = step(m, f, st, k)
                except (Interrupted, InjectedError) as e:
                    new = None
                    o.bump("fault:" + type(e).__name__)
                finally:
                    m.faults.calls = {(cb, i): act for cb, i, act in m.faults.plan.get("calls", [])}
                    m.faults.fired.clear()
            df = same_snap(before, state_snap(st))
            check(df is None, "input-altered", "a step (%s) altered the state object it was given: %s", fault or "plain", df)
            return new

        def judge(new, k):
            df = same_snap(ref[k], state_snap(new), exact)
            check(df is None, "history-differs", "state after observation %d differs from the uninterrupted run in %s", k, df)

        for op in list(case["ops"]) + [["deliver"]] * T:
            if op[0] == "save":
                mocat.save_cdict(st, path, overwrite=True)
                saved = k
            elif op[0] == "crash":
                o.bump("fault:crash and restart")
                m, f = build(case)
                if saved is None:
                    with ctx_for(m):
                        st = initiate(m, f)
                    k = 1
                else:
                    f.startup(m)
                    st = mocat.load_cdict(path)
                    k = saved
                judge(st, k - 1)
            elif k < T:
                if op[0] == "deliver":
                    st = attempt(k)
                    judge(st, k)
                    k += 1
                elif op[0] == "dup":
                    new = attempt(k)
                    again = attempt(k)
                    judge(again, k)
                    judge(new, k)
                    st = new
                    k += 1
                    o.bump("fault:duplicate delivery")
                else:
                    new = attempt(k, op)
                    if new is not None:
                        judge(new, k)
                        st = new
                        k += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ref, ticks


# ------------------------------------------------------------------------------------------------ C20
def np_ess(lw):
    lw = np.asarray(lw, float)
    m = np.max(lw)
    w = np.exp(lw - m)
    return w.sum() ** 2 / (w ** 2).sum()


def incs(case, m, f, parents, children, y, t0, t1, events):
    """Expected incremental log weights (None: cannot be judged); NaN replaced by -inf."""
    out = []
    kind = case["filter"]
    if kind == "enkf":
        return [0.] * len(children)
    if kind == "optimal":
        H, Q, R = m.H.astype(float), m.Q.astype(float), m.R.astype(float)
        S = H @ Q @ H.T + R
        for x in parents:
            z = np.asarray(y, float) - H @ m.np_mean(x, t0, t1)
            out.append(-0.5 * z @ np.linalg.solve(S, z))
        return out
    pool = [e for e in events if e["cb"] == "likelihood_potential"]
    for p, c in zip(parents, children):
        lik = m.np_lik(c, y, t1)
        acts = [e for e in pool if e["act"] and same(e["x"], c)]
        if acts:
            lik = np.inf if all(same(a["x"], c) for a in acts) else None
            if len([e for e in pool if same(e["x"], c)]) != len(acts):
                lik = None
        if lik is None:
            out.append(None)
            continue
        v = -lik
        if kind == "general":
            tr = m.np_trans(p, t0, c, t1)
            if tr is None:
                out.append(None)
                continue
            v = v - tr + f.np_prop(m, p, t0, c, y, t1)
        out.append(-np.inf if np.isnan(v) else v)
    return out


def check_weights(code, got, want, rel, what):
    got = np.asarray(got, float)
    for i, w in enumerate(want):
        if w is None:
            continue
        if w == -np.inf:
            check(got[i] == -np.inf, code, "%s: particle %d is impossible but has log weight %s", what, i, got[i])
    ok = [i for i, w in enumerate(want) if w is not None and w > -np.inf]
    if not ok:
        return
    g, w = got[ok], np.array([want[i] for i in ok])
    if rel:
        g, w = g - g[0], w - w[0]
    tol = 2e-3 + 2e-4 * np.abs(np.array([want[i] for i in ok]))
    check(np.all(np.abs(g - w) <= tol), code, "%s: log weights %s, expected %s%s", what, g, w, " (relative)" if rel else "")


def check_step(case, m, f, prev, new, y, t1, thr, tape, events, o, resampled_rows=None, tag=""):
    """One filter step. prev/new: value (n,d), log_weight (n,), t, ess. resampled_rows: (rows, weights) the new state
    holds for the previous time, if it does."""
    n = case["n"]
    plw = np.asarray(prev["log_weight"], float)
    if not np.any(plw > -np.inf) or np.any(np.isnan(plw)):
        return False
    e = float(prev["ess"])
    want = None if abs(e - thr * n) < 1e-3 * n else e < thr * n
    if case.get("tie") and np.float32(e) == np.float32(thr * n):
        want = False
    par = parents_of(case, prev, new, tape, events, m)
    inds = None
    cats = [r for r in tape if r["op"] == "categorical" and not r["user"] and np.shape(r["out"]) == (n,)
            and np.ndim(r["args"][0] if r["args"] else 0) == 1]
    if resampled_rows is not None:
        rows, rw = resampled_rows
        if par is not None:
            check(same(par, rows), "parents-differ", "%s: particles were propagated from %s, not from the particles the state holds %s",
                  tag, np.ravel(par)[:6], np.ravel(rows)[:6])
        par = rows
    if par is None:
        return True
    untouched = same(par, prev["value"])
    if want is False:
        check(untouched, "resampled-above-threshold", "%s: ess %.4f of %d is not below %.2f but particles were resampled", tag, e, n, thr)
        if resampled_rows is not None:
            check(same(rw, prev["log_weight"]), "weights-touched", "%s: not resampled but the previous weights became %s", tag, rw)
    if want is True:
        for i in range(n):
            js = [j for j in range(n) if same(prev["value"][j], par[i])]
            check(any(plw[j] > -np.inf for j in js), "resample-impossible", "%s: parent %d is %s", tag, i,
                  "a particle without weight" if js else "not a particle of the previous step")
        if resampled_rows is not None:
            check(np.all(np.asarray(rw) == np.asarray(rw)[0]), "weights-not-reset", "%s: resampled but the weights are %s", tag, rw)
        if len(cats) == 1:
            lg = np.asarray(cats[0]["args"][0], float)
            if lg.shape == plw.shape:
                a, b = np.exp(lg - np.max(lg)), np.exp(plw - np.max(plw))
                check(close(a / a.sum(), b / b.sum(), 1e-3, 1e-4), "resample-law", "%s: resampled with log weights %s, particles have %s", tag, lg, plw)
            ix = np.asarray(cats[0]["out"])
            check(sorted(map(tuple, np.asarray(prev["value"])[ix].tolist())) == sorted(map(tuple, np.asarray(par).tolist())),
                  "resample-draw", "%s: parents are not the particles drawn", tag)
        o.bump("probe:resampled step")
    if want is None:
        if untouched:
            want = None
        else:
            want = True
    base = None if want is None else (np.zeros(n) if want else plw)
    if base is None:
        return True
    inc = incs(case, m, f, par, new["value"], y, prev["t"], t1, events)
    exp = [None if v is None else (-np.inf if v == -np.inf else base[i] + v) for i, v in enumerate(inc)]
    check_weights("weight", new["log_weight"], exp, case["filter"] == "optimal", f"{tag} t={float(t1):.3g}")
    if case["filter"] in ("optimal", "enkf"):
        check_kalman(case, m, par, new["value"], y, prev["t"], t1, tape, tag)
    for ev in events:
        if ev["cb"] in ("likelihood_potential", "proposal_sample") and ev.get("y") is not None:
            check(same(np.ravel(ev["y"]), np.ravel(y)) and close(ev["t1"], t1), "wrong-observation", "%s: %s was given y=%s t=%s at the step of y=%s t=%s",
                  tag, ev["cb"], ev["y"], ev["t1"], y, t1)
        if ev["cb"] in ("transition_sample", "proposal_sample", "transition_function"):
            check(close(ev["t0"], prev["t"]) and close(ev["t1"], t1), "wrong-times", "%s: %s from t=%s to t=%s, step is %s to %s", tag, ev["cb"],
                  ev["t0"], ev["t1"], prev["t"], t1)
    lw = np.asarray(new["log_weight"], float)
    if np.any(lw > -np.inf):
        check(np.isfinite(new["ess"]) and abs(float(new["ess"]) - np_ess(lw)) < 1e-3 * n, "ess", "%s: ess %s, of the weights %s", tag, new["ess"], np_ess(lw))
    else:
        o.bump("probe:extinct step")
    if np.any(lw == -np.inf):
        o.bump("probe:impossible particles")
    return True


def parents_of(case, prev, new, tape, events, m):
    """Parents the particles were really propagated from, from the recorded calls; None if they cannot be told."""
    n = case["n"]
    cb = {"boot": "transition_sample", "general": "proposal_sample"}.get(case["filter"], "transition_function")
    evs = [e for e in events if e["cb"] == cb]
    if any(e["x"] is None or e["out"] is None for e in evs):
        return None
    if cb == "transition_function":
        if len(evs) != n:
            return None
        return np.stack([e["x"] for e in evs])
    out = []
    for i in range(n):
        hit = [e for e in evs if same(np.ravel(e["out"]), np.ravel(new["value"][i]))]
        check(hit, "not-proposed", "particle %d of the new step was not produced by the filter's proposal", i)
        if any(not same(h["x"], hit[0]["x"]) for h in hit):
            return None
        out.append(hit[0]["x"])
    return np.stack(out)


def check_kalman(case, m, par, val, y, t0, t1, tape, tag):
    nz = [np.asarray(r["out"], float) for r in tape if r["op"] == "normal" and not r["user"]]
    n, d, k = case["n"], m.dim, m.dim_obs
    H, Q, R = m.H.astype(float), m.Q.astype(float), m.R.astype(float)
    mx = np.stack([m.np_mean(x, t0, t1) for x in par])
    y = np.asarray(y, float)
    if case["filter"] == "optimal":
        if [z.shape for z in nz] != [(n, d)]:
            return
        K = Q @ H.T @ np.linalg.inv(H @ Q @ H.T + R)
        P = Q - K @ H @ Q
        want = mx + (y - mx @ H.T) @ K.T + nz[0] @ np.linalg.cholesky((P + P.T) / 2).T
    else:
        if [z.shape for z in nz] != [(n, d), (n, k)]:
            return
        mx = mx + nz[0] @ np.linalg.cholesky(Q).T
        s = (mx - mx.mean(0)) / np.sqrt(n - 1)
        C = s.T @ s
        K = C @ H.T @ np.linalg.inv(H @ C @ H.T + R)
        yp = mx @ H.T + nz[1] @ np.linalg.cholesky(R).T
        want = mx + (y - yp) @ K.T
    check(close(val, want, 5e-3, 5e-3), "proposal", "%s: new particles %s, proposal gives %s", tag, np.ravel(val)[:6], np.ravel(want)[:6])


def execute_c20(case, ys, ts):
    T, n = len(ts), case["n"]
    K = key_of(case["key"])
    m, f = build(case)
    b = states = marks = None
    scans = []
    plan = SsmDraws(case["draws"])
    with seams.Ctx() as c:
        c.draw_hook = plan
        if case["mode"] == "batch":
            c.on_tick = lambda kind: scans.append((len(c.tape), len(c.events))) if kind == "scan" else None
            b = snap(ssm.run_particle_filter_for_marginals(m, f, jnp.asarray(ys), jnp.asarray(ts), K, n=n, ess_threshold=case["thr"]))
        else:
            sub, keys = batch_keys(K, T)
            st = ssm.initiate_particles(m, f, n, sub, jnp.asarray(ys[0]), jnp.asarray(ts[0]))
            states, marks = [state_snap(st)], [(len(c.tape), len(c.events))]
            for k in range(1, T):
                st = ssm.propagate_particle_filter(m, f, st, jnp.asarray(ys[k]), jnp.asarray(ts[k]), keys[k - 1], case["thr"], case["full"])
                states.append(state_snap(st))
                marks.append((len(c.tape), len(c.events)))
    return m, f, c, plan, b, states, marks, scans


def tied_c20(case, o):
    """The same case with its resampling threshold put exactly on the smallest effective sample size so far at some time."""
    ys, ts = data(case)
    _, _, _, _, b, states, _, _ = execute_c20(dict(case, thr=0.), ys, ts)
    ess = b["ess"] if states is None else states[-1]["ess"]
    n, low, hits = np.float32(case["n"]), np.inf, []
    for e in np.asarray(ess, np.float32)[:-1]:
        if not np.isfinite(e):
            break
        if e < low:
            t = float(e) / case["n"]
            if np.float32(t * case["n"]) == e and np.float32(t) * n == e and e / n == np.float32(t):
                hits.append(t)
            low = e
    if not hits:
        return case
    o.bump("probe:threshold equal to an effective sample size")
    return dict(case, thr=hits[-1])


def run_c20(case, o):
    if case.get("tie"):
        case = tied_c20(case, o)
    ys, ts = data(case)
    T, n = len(ts), case["n"]
    m, f, c, plan, b, states, marks, scans = execute_c20(case, ys, ts)
    o.bump("ticks", c.ticks)
    note_faults(o, m, plan)
    if states is None:
        seq = [{k2: b[k2][k] for k2 in ("value", "log_weight", "t", "ess")} for k in range(T)]
        segs = segments(c, case, ts, scans)
    else:
        for k, s in enumerate(states):
            for nm in ("value", "log_weight", "ess", "t"):
                check(np.shape(s[nm])[:1] == (k + 1,), "shape", "%s has shape %s after %d steps", nm, np.shape(s[nm]), k + 1)
        seq = [{k2: s[k2][-1] for k2 in ("value", "log_weight", "t", "ess")} for s in states]
        segs = [(c.tape[:marks[0][0]], c.events[:marks[0][1]])] + [
            (c.tape[marks[k - 1][0]:marks[k][0]], c.events[marks[k - 1][1]:marks[k][1]]) for k in range(1, T)]
    # initial step
    s0 = seq[0]
    if case["filter"] in ("boot", "general"):
        lik = []
        pool = [e for e in segs[0][1] if e["cb"] == "likelihood_potential"]
        for x in s0["value"]:
            acts = [e for e in pool if e["act"] and same(np.ravel(e["x"]), np.ravel(x))]
            v = m.np_lik(x, ys[0], ts[0])
            lik.append(-np.inf if acts else (None if v is None else (-np.inf if np.isnan(v) else -v)))
        check_weights("initial-weight", s0["log_weight"], lik, False, "initial")
        outs = [np.ravel(e["out"]) for e in segs[0][1] if e["cb"] == "initial_sample" and e["out"] is not None]
        for x in s0["value"]:
            check(any(same(x, q) for q in outs), "initial-sample", "an initial particle is not a draw of the filter")
    else:
        check(np.all(s0["log_weight"] == s0["log_weight"][0]), "initial-weight", "initial log weights %s", s0["log_weight"])
    if np.any(s0["log_weight"] > -np.inf):
        check(abs(float(s0["ess"]) - np_ess(s0["log_weight"])) < 1e-3 * n, "ess", "initial ess %s, of the weights %s", s0["ess"], np_ess(s0["log_weight"]))
    done = 0
    for k in range(1, T):
        held = None
        if states is not None:
            held = (states[k]["value"][-2], states[k]["log_weight"][-2])
            check_history(case, states[k - 1], states[k], k)
        if segs[k] is None:
            continue
        if not check_step(case, m, f, seq[k - 1], seq[k], ys[k], ts[k], case["thr"], segs[k][0], segs[k][1], o, held, f"step {k}"):
            break
        done += 1
    o.fp = fingerprint(case["filter"], case["mode"], case["thr"], np.round(seq[-1]["value"], 3).tolist())
    o.nontrivial = done > 0


def check_history(case, prev, new, k):
    """Earlier times of an online state: untouched, or whole paths resampled."""
    if same(new["value"][-2], prev["value"][-1]):
        if not same(new["value"][:-1], prev["value"]):
            check(False, "history-touched", "step %d changed earlier particles without resampling", k)
    elif case["full"]:
        cols = {prev["value"][:, j].tobytes() for j in range(case["n"])}
        for i in range(case["n"]):
            check(np.ascontiguousarray(new["value"][:-1, i]).tobytes() in cols, "path-broken", "step %d: path %d is not a path of the previous state", k, i)
    else:
        check(same(new["value"][:-2], prev["value"][:-1]), "history-touched", "step %d changed earlier particles", k)
    check(same(new["log_weight"][:-2], prev["log_weight"][:-1]), "history-weights", "step %d changed earlier weights", k)
    check(same(new["ess"][:-1], prev["ess"]) and same(new["t"][:-1], prev["t"]), "history-record", "step %d changed earlier ess or times", k)


def segments(c, case, ts, scans):
    """Tape and events of each step of a batch run."""
    T = len(ts)
    if len(scans) == T - 1:
        edges = [(0, 0)] + scans + [(len(c.tape), len(c.events))]
        return [(c.tape[a[0]:b[0]], c.events[a[1]:b[1]]) for a, b in zip(edges, edges[1:])]
    cuts = []
    for k in range(1, T):       # by the new time the model was called with
        idx = [i for i, e in enumerate(c.events) if e["cb"] in ("transition_sample", "proposal_sample", "transition_function")
               and e["t1"] is not None and abs(float(e["t1"]) - float(ts[k])) < 1e-6]
        idx = [i for i in idx if not cuts or i >= cuts[-1]]
        if not idx:
            return [([], c.events)] + [None] * (T - 1)
        cuts.append(idx[0])
    edges = [0] + cuts + [len(c.events)]
    return [([], c.events[a:b]) for a, b in zip(edges, edges[1:])]


# ------------------------------------------------------------------------------------------------ rejection replay
class Lost(Exception):
    """The recorded draws do not have the expected form, or a comparison is too close to call."""


def replay_rejection(draws_, n, m_cand, logits, U, maxrej, bound, infl):
    """Replays one rejection pass from its draws. U(i, j): potential between lane i and candidate j.
    Returns (chosen candidate per lane, evaluations)."""
    it = list(draws_)

    def take(op, shape):
        if not it or it[0]["op"] != op or np.shape(it[0]["out"]) != shape:
            raise Lost
        return it.pop(0)

    def law(r, want):
        lg = np.asarray(r["args"][0], float)
        if lg.shape != want.shape:
            raise Lost
        lw = lg - np.max(lg)
        ww = want - np.max(want)
        a, b = np.exp(lw), np.exp(ww)
        check(close(a / a.sum(), b / b.sum(), 2e-3, 1e-3), "candidate-law", "candidates drawn with log weights %s, should be %s", lg, want)

    def dens(i, j):
        u = U(i, j)
        if u is None:
            raise Lost
        return 0. if np.isnan(u) else float(np.exp(np.float32(-u)))

    def over(a, b):
        if a != b and abs(a - b) < 1e-4 * max(abs(a), abs(b)):
            raise Lost
        if a == b and a > 0:
            raise Lost
        return a > b

    def accepted(u, d, b):
        if d <= 1e-37:
            if 0 < d:
                raise Lost
            return False
        r = d / b if b > 0 else np.inf
        if abs(u - r) < 1e-4 * max(r, 1e-3):
            raise Lost
        return u <= r

    r = take("categorical", (n,))
    law(r, logits)
    pick = np.asarray(r["out"]).tolist()
    us = np.asarray(take("uniform", (n,))["out"], float)
    d0 = [dens(i, pick[i]) for i in range(n)]
    mx = max(d0)
    if over(mx, bound):
        bound = mx * infl
    naa = [not accepted(us[i], d0[i], bound) for i in range(n)]
    evals = n
    rounds = 1
    resets = 0
    while any(naa):
        # is this the fallback? a scalar choice without a uniform after it
        if not it:
            raise Lost
        if np.shape(it[0]["out"]) != () or it[0]["op"] != "categorical":
            raise Lost
        if len(it) < 2 or it[1]["op"] != "uniform" or np.shape(it[1]["out"]) != ():
            break
        check(rounds < maxrej, "too-many-rounds", "rejection round %d although at most %d are allowed", rounds + 1, maxrej)
        ds = [0.] * n
        acc = {}
        for i in range(n):
            if not naa[i]:
                continue
            r = take("categorical", ())
            law(r, logits)
            pick[i] = int(r["out"])
            u = float(take("uniform", ())["out"])
            ds[i] = dens(i, pick[i])
            acc[i] = accepted(u, ds[i], bound)
            evals += 1
        mx = max(ds)
        if over(mx, bound):
            bound = mx * infl
            naa = [True] * n
            resets += 1
        else:
            naa = [naa[i] and not acc[i] for i in range(n)]
        rounds += 1
    for i in range(n):
        if naa[i]:
            r = take("categorical", ())
            want = np.array([logits[j] - (np.inf if (U(i, j) is None or np.isnan(U(i, j))) else U(i, j)) for j in range(m_cand)])
            if any(U(i, j) is None for j in range(m_cand)):
                raise Lost
            if np.any(want > -np.inf):
                law(r, want)
            pick[i] = int(r["out"])
            evals += m_cand
    return pick, evals, rounds, resets, sum(naa), it


# ------------------------------------------------------------------------------------------------ C10
def synthetic(case, m):
    """A hand-made filter output: particles simulated from the model, adversarial weights."""
    r = np.random.default_rng(case["key"])
    ys, ts = data(case)
    n, d = case["n"], case["model"]["dim"]
    x = r.normal(size=(n, d)) * case["model"]["init"]
    vals = [x]
    for k in range(1, len(ts)):
        x = np.stack([m.np_mean(p, ts[k - 1], ts[k]) for p in x]) + case["model"]["q"] * r.normal(size=(n, d))
        vals.append(x)
    lw = np.asarray(r.normal(size=(len(ts), n)) * r.choice([0.1, 1., 20.]), np.float32)
    for k in range(len(ts)):
        bad = r.random(n) < 0.25
        if not bad.all():
            lw[k, bad] = -np.inf
    return mocat.cdict(value=jnp.asarray(np.stack(vals), jnp.float32), log_weight=jnp.asarray(lw), t=jnp.asarray(ts), y=jnp.asarray(ys),
                       ess=jnp.asarray([np_ess(w) for w in lw], jnp.float32))


def run_c10(case, o):
    ys, ts = data(case)
    T, n = len(ts), case["n"]
    K = key_of(case["key"])
    m, f = build(case)
    captured = {}
    plan = SsmDraws(case["draws"])
    kw = dict(maximum_rejections=case["maxrej"], transition_dens_bound_parameter=case["bound"], bound_inflation=case["infl"])
    import mocat.src.ssm.backward as bmod
    if case["source"] == "ffbsi":
        orig = bmod.backward_simulation
        with seams.Ctx() as c:
            def cap(model, marg, *a, **k):
                captured["marg"] = marg
                captured["tape"], captured["ev"] = len(c.tape), len(c.events)
                c.draw_hook = plan
                return orig(model, marg, *a, **k)
            bmod.backward_simulation = cap
            try:
                out = ssm.forward_filtering_backward_simulation(m, f, jnp.asarray(ys), jnp.asarray(ts), case["nsamps"] or n, K, n_pf=n,
                                                                ess_threshold=case["thr"], **kw)
            finally:
                bmod.backward_simulation = orig
        if "marg" not in captured:
            return
        marg = captured["marg"]
        tape, events = c.tape[captured["tape"]:], c.events[captured["ev"]:]
        before = state_snap(marg)
    else:
        with seams.Ctx(record=False) as c0:
            if case["source"] == "synthetic":
                marg = synthetic(case, m)
            elif case["source"] == "batch":
                marg = ssm.run_particle_filter_for_marginals(m, f, jnp.asarray(ys), jnp.asarray(ts), K, n=n, ess_threshold=case["thr"])
            else:
                sub, keys = batch_keys(K, T)
                marg = ssm.initiate_particles(m, f, n, sub, jnp.asarray(ys[0]), jnp.asarray(ts[0]))
                for k in range(1, T):
                    marg = ssm.propagate_particle_filter(m, f, marg, jnp.asarray(ys[k]), jnp.asarray(ts[k]), keys[k - 1], case["thr"], False)
        note_faults(o, m)
        before = state_snap(marg)
        if np.any(np.all(~(before["log_weight"] > -np.inf), axis=1)):
            return          # extinct filter: nothing to draw from
        if case.get("calls"):
            m.faults.calls = {("transition_potential", i): a for i, a in case["calls"]}
        with seams.Ctx() as c:
            c.draw_hook = plan
            out = ssm.backward_simulation(m, marg, random.fold_in(K, 9), case["nsamps"], **kw)
        tape, events = c.tape, c.events
        d = same_snap(before, state_snap(marg))
        check(d is None, "input-altered", "backward simulation altered the filter output it was given: %s", d)
    if np.any(np.all(~(before["log_weight"] > -np.inf), axis=1)):
        return
    o.bump("ticks", c.ticks)
    note_faults(o, m, plan)
    ns = case["nsamps"] or n
    s = snap(out)
    check_paths(case, m, before, s["value"], ns, ts, events, o)
    check("log_weight" not in s, "weights-left", "smoothed output still has log_weight")
    check(same(s["t"], ts) and same(np.reshape(s["y"], ys.shape) if np.size(s["y"]) == ys.size else s["y"], ys), "record", "times or observations changed")
    check(np.shape(s["num_transition_evals"]) == (T,), "evals-shape", "num_transition_evals has shape %s", np.shape(s["num_transition_evals"]))
    for k in range(T - 1):
        real = sum(1 for e in events if e["cb"] == "transition_potential" and e["t0"] is not None and close(e["t0"], ts[k], 0, 1e-6)
                   and close(e["t1"], ts[k + 1], 0, 1e-6))
        check(float(s["num_transition_evals"][k + 1]) == real, "evals-count", "transition %d: recorded %s evaluations, %d made", k,
              s["num_transition_evals"][k + 1], real)
    check(float(s["num_transition_evals"][0]) == 0, "evals-count", "evaluations recorded for the last filter step: %s", s["num_transition_evals"])
    total = sum(1 for e in events if e["cb"] == "transition_potential")
    check(total == float(np.sum(s["num_transition_evals"])), "evals-total", "%d evaluations recorded, %d made", np.sum(s["num_transition_evals"]), total)
    check_backward_draws(case, m, before, s["value"], ns, ts, tape, events, o)
    o.fp = fingerprint(case["source"], case["maxrej"], case["bound"], case["infl"], np.round(s["value"], 3).tolist(), s["num_transition_evals"].tolist())
    o.nontrivial = T > 1


def bad_pairs(events):
    """Pairs whose potential was reported undefined by a failing call."""
    return {(np.asarray(e["x"]).tobytes(), np.asarray(e["x1"]).tobytes()) for e in events
            if e["cb"] == "transition_potential" and e["act"] and e["x"] is not None and e["x1"] is not None}


def check_paths(case, m, marg, val, ns, ts, events, o, tag=""):
    T = len(ts)
    check(np.shape(val) == (T, ns, case["model"]["dim"]), "paths-shape", "%spaths have shape %s", tag, np.shape(val))
    bad = bad_pairs(events)
    for k in range(T):
        rows = {}
        for j, x in enumerate(marg["value"][k]):
            rows.setdefault(np.ascontiguousarray(x).tobytes(), []).append(j)
        for i in range(ns):
            js = rows.get(np.ascontiguousarray(val[k, i]).tobytes())
            check(js is not None, "foreign-particle", "%spath %d at time %d is at %s, which is no particle of the filter", tag, i, k, val[k, i])
            if k + 1 < T and bad and not any(
                    marg["log_weight"][k][j] > -np.inf and (marg["value"][k][j].tobytes(), val[k + 1, i].tobytes()) not in bad
                    and m.np_trans(marg["value"][k][j], ts[k], val[k + 1, i], ts[k + 1]) != np.inf for j in range(len(marg["value"][k]))):
                continue        # every way into the next point failed: nothing is promised
            check(any(marg["log_weight"][k][j] > -np.inf for j in js), "impossible-particle", "%spath %d at time %d is a particle without weight", tag, i, k)
            if k + 1 < T:
                u = m.np_trans(val[k, i], ts[k], val[k + 1, i], ts[k + 1])
                check(u is None or u < np.inf, "impossible-transition", "%spath %d jumps from %s to %s (times %d, %d) with zero density", tag, i, val[k, i], val[k + 1, i], k, k + 1)
                if (val[k, i].tobytes(), val[k + 1, i].tobytes()) in bad:
                    # only wrong when the pair was evaluated as undefined and another choice existed
                    cand = [j for j in range(len(marg["value"][k])) if marg["log_weight"][k][j] > -np.inf
                            and (marg["value"][k][j].tobytes(), val[k + 1, i].tobytes()) not in bad]
                    n_eval = [e["act"] for e in events if e["cb"] == "transition_potential" and same(e["x"], val[k, i]) and same(e["x1"], val[k + 1, i])]
                    check(not cand or not all(n_eval), "undefined-transition", "%spath %d uses a transition whose potential was undefined", tag, i)


def finite_choice(m, marg, k, x1, ts):
    us = [m.np_trans(x, ts[k], x1, ts[k + 1]) for x in marg["value"][k]]
    return us


def check_backward_draws(case, m, marg, val, ns, ts, tape, events, o):
    """Replays the draws of a backward simulation."""
    T, n = len(ts), len(marg["value"][0])
    dr = [r for r in tape if r["op"] in ("categorical", "uniform") and not r["user"]]
    if not dr or dr[0]["op"] != "categorical" or np.shape(dr[0]["out"]) != (ns,) or np.ndim(dr[0]["args"][0]) != 1:
        o.bump("probe:draws not recognised")
        return
    first = dr.pop(0)
    lg, lw = np.asarray(first["args"][0], float), np.asarray(marg["log_weight"][-1], float)
    check(lg.shape == lw.shape and close(np.exp(lg - lg.max()) / np.exp(lg - lg.max()).sum(), np.exp(lw - lw.max()) / np.exp(lw - lw.max()).sum(), 2e-3, 1e-3),
          "final-law", "final points drawn with log weights %s, filter has %s", lg, lw)
    check(same(val[-1], marg["value"][-1][np.asarray(first["out"])]), "final-draw", "final points are not those drawn")
    bad = bad_pairs(events)
    for k in range(T - 2, -1, -1):
        lw = np.asarray(marg["log_weight"][k], float)

        def U(i, j, k=k):
            if (marg["value"][k][j].tobytes(), val[k + 1, i].tobytes()) in bad:
                return None
            return m.np_trans(marg["value"][k][j], ts[k], val[k + 1, i], ts[k + 1])
        if case["maxrej"] > 0:
            try:
                pick, evals, rounds, resets, fb, rest = replay_rejection(dr, ns, n, lw, U, case["maxrej"], case["bound"], case["infl"])
            except Lost:
                o.bump("probe:draws not judged")
                return
            o.bump("probe:rejection rounds", rounds)
            o.bump("probe:bound resets", resets)
            o.bump("probe:fallback draws", fb)
            for i in range(ns):
                check(same(val[k, i], marg["value"][k][pick[i]]), "accepted-candidate",
                      "time %d path %d: chose %s, the draws select particle %d %s (after %d rounds)", k, i, val[k, i], pick[i], marg["value"][k][pick[i]], rounds)
            used = len(dr) - len(rest)
            dr = rest
        else:
            for i in range(ns):
                if not dr or dr[0]["op"] != "categorical" or np.shape(dr[0]["out"]) != ():
                    o.bump("probe:draws not recognised")
                    return
                r = dr.pop(0)
                us = [U(i, j) for j in range(n)]
                if any(u is None for u in us):
                    check(True, "", "")
                    check_pick = False
                else:
                    want = lw - np.array(us)
                    lg = np.asarray(r["args"][0], float)
                    if lg.shape == want.shape and np.any(want > -np.inf):
                        a, b = np.exp(lg - np.max(lg)), np.exp(want - np.max(want))
                        check(close(a / a.sum(), b / b.sum(), 5e-3, 2e-3), "backward-law", "time %d path %d: drawn with log weights %s, should be %s", k, i, lg, want)
                check(same(val[k, i], marg["value"][k][int(r["out"])]), "backward-draw", "time %d path %d is not the particle drawn", k, i)


# ------------------------------------------------------------------------------------------------ C11
def run_c11(case, o):
    ys, ts = data(case)
    T, n, lag = len(ts), case["n"], case["lag"]
    K = key_of(case["key"])
    init_key, keys = batch_keys(K, T)
    import mocat.src.ssm.online_smoothing as om
    cap = {}

    def step(m, f, p, k):
        orig = getattr(om, "backward_simulation", None)
        cap.clear()
        c = seams.current()

        def wrap(model, marg, *a, **kw):
            out = orig(model, marg, *a, **kw)
            cap["marg"], cap["out"] = state_snap(marg), np.array(out.value)
            cap["tape"] = len(c.tape)
            return out
        if orig is not None:
            om.backward_simulation = wrap
        try:
            return ssm.propagate_particle_smoother(m, f, p, jnp.asarray(ys[k]), jnp.asarray(ts[k]), keys[k - 1], lag, case["bs"], case["thr"],
                                                   case["maxrej"], case["bound"], case["infl"])
        finally:
            if orig is not None:
                om.backward_simulation = orig

    stop = []

    def observer(m, f, P, S, k, c):
        if stop:
            return
        extinct = not np.any(S["marginal_filter"]["log_weight"][-1] > -np.inf) if case["bs"] and "marginal_filter" in S else False
        if not case["bs"]:
            pl = np.atleast_2d(P["log_weight"])[-1]
            extinct = not np.any(pl > -np.inf)
        if extinct or not reachable(case, m, f, P, S, k, c, cap):
            stop.append(k)
            o.bump("probe:extinct or unreachable step")
            return
        check_lag(case, m, f, P, S, k, c, cap, o)

    ref, ticks = stream(case, o, init_key, step, observer)
    o.fp = fingerprint(case["filter"], lag, case["bs"], case["maxrej"], case["ops"], np.round(ref[-1]["value"], 3).tolist())
    o.nontrivial = T > 1


def new_particles(case, P, c):
    cb = "transition_sample" if case["filter"] == "boot" else "proposal_sample"
    return [e for e in c.events if e["cb"] == cb and e["x"] is not None and e["out"] is not None]


def alive(case, m, f, e, y, t1):
    """Has a newly proposed particle any weight?  None if it cannot be told."""
    lik = m.np_lik(e["out"], y, t1)
    if lik is None:
        return None
    if not np.isfinite(lik):
        return False
    if case["filter"] == "general":
        tr = m.np_trans(e["x"], e["t0"], e["out"], t1)
        return None if tr is None else bool(np.isfinite(tr))
    return True


def reachable(case, m, f, P, S, k, c, cap):
    """Can every old trajectory be continued by at least one candidate?  (Otherwise nothing is promised.)"""
    ys, ts = data(case)
    s = len(S["t"]) - case["lag"] - 1
    evs = new_particles(case, P, c)
    if not any(alive(case, m, f, e, ys[k], ts[k]) is not False for e in evs):
        return False
    if s < 0:
        return True
    for i in range(case["n"]):
        x0 = S["value"][s, i]
        if case["bs"]:
            if "out" not in cap:
                return True
            cand = [cap["out"][1, j] for j in range(case["n"])]
        elif case["lag"] == 1:
            cand = [e["out"] for e in evs if alive(case, m, f, e, ys[k], ts[k]) is not False]
        else:
            ok = [e for e in evs if alive(case, m, f, e, ys[k], ts[k]) is not False]
            cand = [P["value"][s + 1, j] for j in range(case["n"]) if any(same(P["value"][-1, j], e["x"]) for e in ok)]
        us = [m.np_trans(x0, ts[s], x, ts[s + 1]) for x in cand]
        if not any(u is None or u < np.inf for u in us):
            return False
    return True


def check_lag(case, m, f, P, S, k, c, cap, o):
    ys, ts = data(case)
    n, lag = case["n"], case["lag"]
    L = len(ts[:k + 1])
    s = L - lag - 1
    check(np.shape(S["value"]) == (k + 1, n, case["model"]["dim"]), "shape", "value has shape %s", np.shape(S["value"]))
    check(same(S["y"], ys[:k + 1]), "observations-record", "recorded y %s after %d observations", np.ravel(S["y"])[:8], k + 1)
    check(same(S["t"], ts[:k + 1]), "times-record", "recorded t %s", S["t"])
    nte = np.ravel(S["num_transition_evals"])
    check(nte.shape == (k + 1,), "counts-record", "num_transition_evals has shape %s after %d steps", nte.shape, k)
    if "num_transition_evals" in P:
        check(same(nte[:-1], np.ravel(P["num_transition_evals"])), "counts-record", "earlier transition counts changed")
    V, PV = S["value"], P["value"]
    evs = new_particles(case, P, c)
    tag = f"step {k}: "
    if case["bs"]:
        mf = S.get("marginal_filter")
        check(isinstance(mf, dict), "marginal-filter", "no marginal filter carried")
        pm = P.get("marginal_filter") or {q: P[q] for q in ("value", "log_weight", "t", "ess")}
        check(np.shape(mf["value"]) == (k + 1, n, case["model"]["dim"]), "marginal-filter", "marginal filter has shape %s", np.shape(mf["value"]))
        check(same(mf["t"], ts[:k + 1]) and same(np.reshape(mf["y"], (k + 1, -1)) if np.size(mf["y"]) == ys[:k + 1].size else mf["y"], ys[:k + 1]),
              "marginal-record", "marginal filter recorded t %s y %s", mf["t"], np.ravel(mf["y"])[:6])
        nb = next((i for i, r in enumerate(c.tape) if r["op"] == "categorical" and np.shape(r["out"]) == () and not r["user"]), len(c.tape))
        fe = [e for e in c.events]
        last = max([i for i, e in enumerate(fe) if e["cb"] in ("transition_sample", "proposal_sample", "likelihood_potential")], default=-1)
        lastlik = last + 1
        tape = [r for r in c.tape if r["ev"] < lastlik]
        prev = {"value": pm["value"][-1], "log_weight": pm["log_weight"][-1], "t": pm["t"][-1], "ess": np.ravel(pm["ess"])[-1]}
        new = {q: mf[q][-1] for q in ("value", "log_weight", "t", "ess")}
        check_step(case, m, f, prev, new, ys[k], ts[k], case["thr"], tape, fe[:lastlik], o, (mf["value"][-2], mf["log_weight"][-2]), tag + "marginal filter")
        check(np.all(np.asarray(S["log_weight"]) == 0), "weights-not-reset", "backward-simulation smoother has log weights %s", S["log_weight"])
        rows = [[np.ascontiguousarray(x).tobytes() for x in mf["value"][q]] for q in range(k + 1)]
        newest = {r for j, r in enumerate(rows[k]) if mf["log_weight"][k][j] > -np.inf}
        if s >= 0:
            check(same(V[:s + 1], PV[:s + 1]), "old-rewritten", "%scoordinates older than the lag changed: %s became %s", tag, np.ravel(PV[:s + 1])[:6], np.ravel(V[:s + 1])[:6])
            o.bump("probe:stitched step")
            if "out" in cap:
                cand = cap["out"]
                check_paths(case, m, {q: cap["marg"][q] for q in ("value", "log_weight")}, cand, n, ts[s:k + 1], c.events, o, tag + "candidate ")
                blocks = {np.ascontiguousarray(cand[1:, j]).tobytes(): j for j in range(n)}
                for i in range(n):
                    check(np.ascontiguousarray(V[s + 1:, i]).tobytes() in blocks, "block-mixed", "%srecent block of trajectory %d is no candidate trajectory", tag, i)
                check_stitch(case, m, V, s, cand[0], cand[1:], np.zeros(n), ts, c, cap.get("tape"), o, tag, nte)
        else:
            if "out" in cap:
                check(same(V, cap["out"]), "not-resimulated", "%sbefore the lag is reached trajectories differ from the backward simulation", tag)
            check_paths(case, m, {q: mf[q] for q in ("value", "log_weight")}, V, n, ts[:k + 1], c.events, o, tag)
        for i in range(n):
            check(np.ascontiguousarray(V[k, i]).tobytes() in newest, "newest", "%snewest coordinate of trajectory %d is no newest filter particle with weight", tag, i)
            for q in range(s + 1 if s >= 0 else 0, k + 1):
                check(np.ascontiguousarray(V[q, i]).tobytes() in rows[q], "foreign-particle", "%strajectory %d at time %d is no filter particle", tag, i, q)
        return
    # filter-based
    plw = np.asarray(P["log_weight"], float)
    plw = plw[-1] if plw.ndim == 2 else plw
    e = np_ess(plw)
    resampled = None if abs(e - n) < 2e-2 * n and not np.all(plw == plw[0]) else e < n - 1e-3
    if np.all(plw == plw[0]):
        resampled = False
    paths = [np.ascontiguousarray(PV[:, j]).tobytes() for j in range(n)]
    okp = [j for j in range(n) if plw[j] > -np.inf]
    # candidates: previous path of a parent + its child
    cands = []
    for ev in evs:
        for j in (okp if resampled is not False else range(n)):
            if same(PV[-1, j], ev["x"]):
                cands.append((j, np.concatenate([PV[:, j], np.ravel(ev["out"])[None]]), ev))
    check(len(evs) == 0 or cands, "not-propagated", "%snew particles were not propagated from particles of the previous state", tag)
    if not evs:
        return
    if resampled is False:
        for j in range(n):
            check(any(same(ev["x"], PV[-1, j]) for ev in evs), "resampled-unweighted", "%sunweighted trajectories were resampled", tag)
    if s < 0:
        full = {np.ascontiguousarray(cd[1]).tobytes() for cd in cands}
        for i in range(n):
            check(np.ascontiguousarray(V[:, i]).tobytes() in full, "path-broken", "%strajectory %d is no previous trajectory extended by its child", tag, i)
            if resampled is False:
                check(same(V[:-1, i], PV[:, i]), "path-moved", "%strajectory %d changed without resampling", tag, i)
        par = V[-2]
        inc = incs(case, m, f, par, V[-1], ys[k], ts[k - 1], ts[k], c.events)
        check_weights("weight", S["log_weight"], inc, False, tag)
        return
    o.bump("probe:stitched step")
    if alive_rank(S):
        check(np.all(np.asarray(S["log_weight"]) == 0), "weights-not-reset", "%sstitched but log weights are %s", tag, S["log_weight"])
    old = {np.ascontiguousarray(PV[:s + 1, j]).tobytes() for j in okp}
    for i in range(n):
        if resampled is False:
            check(same(V[:s + 1, i], PV[:s + 1, i]), "old-rewritten", "%scoordinates older than the lag of trajectory %d changed from %s to %s", tag, i,
                  np.ravel(PV[:s + 1, i])[:6], np.ravel(V[:s + 1, i])[:6])
        else:
            check(np.ascontiguousarray(V[:s + 1, i]).tobytes() in old, "old-mixed", "%scoordinates older than the lag of trajectory %d are of no previous trajectory", tag, i)
    blocks = {}
    for j, path, ev in cands:
        blocks.setdefault(np.ascontiguousarray(path[s + 1:]).tobytes(), []).append(ev)
    for i in range(n):
        hit = blocks.get(np.ascontiguousarray(V[s + 1:, i]).tobytes())
        check(hit is not None, "block-mixed", "%srecent block of trajectory %d is of no single candidate", tag, i)
        check(any(alive(case, m, f, ev, ys[k], ts[k]) is not False for ev in hit), "impossible-block", "%srecent block of trajectory %d ends in an impossible particle", tag, i)
        u = m.np_trans(V[s, i], ts[s], V[s + 1, i], ts[s + 1])
        check(u is None or u < np.inf, "impossible-stitch", "%strajectory %d is stitched with zero density", tag, i)
    # the population the stitching worked on, if it can be told
    if len(evs) == n:
        pop = None
        if resampled is False:
            pop = PV
        else:
            cat = [r for r in c.tape if r["op"] == "categorical" and not r["user"] and np.shape(r["out"]) == (n,)]
            if cat and all(same(PV[-1][np.asarray(cat[0]["out"])][i], evs[i]["x"]) for i in range(n)):
                pop = PV[:, np.asarray(cat[0]["out"])]
        if pop is not None:
            blk = np.concatenate([pop, np.stack([np.ravel(ev["out"]) for ev in evs])[None]])
            inc = incs(case, m, f, blk[-2], blk[-1], ys[k], ts[k - 1], ts[k], c.events)
            if all(v is not None for v in inc):
                last = max([i for i, ev in enumerate(c.events) if ev["cb"] in ("transition_sample", "proposal_sample", "likelihood_potential")], default=-1)
                t0 = next((q for q, r in enumerate(c.tape) if r["ev"] > last), len(c.tape))
                check_stitch(case, m, V, s, blk[s], blk[s + 1:], np.array(inc), ts, c, t0, o, tag, nte)


def alive_rank(S):
    return True


def check_stitch(case, m, V, s, x0v, recent, lw, ts, c, t0, o, tag, nte):
    """Replays the stitching draws; candidates j: recent[:, j] with weight lw[j] corrected for its own past x0v[j]."""
    if t0 is None:
        return
    n = case["n"]
    own = [m.np_trans(x0v[j], ts[s], recent[0, j], ts[s + 1]) for j in range(n)]
    if any(u is None for u in own):
        return
    with np.errstate(invalid="ignore"):
        logits = np.array([-np.inf if lw[j] == -np.inf or np.isnan(lw[j]) else lw[j] + own[j] for j in range(n)])
    if np.any(logits == np.inf) or not np.any(logits > -np.inf):
        return

    def U(i, j):
        return m.np_trans(V[s, i], ts[s], recent[0, j], ts[s + 1])
    dr = [r for r in c.tape[t0:] if r["op"] in ("categorical", "uniform") and not r["user"]]
    if case["maxrej"] > 0:
        try:
            pick, evals, rounds, resets, fb, rest = replay_rejection(dr, n, n, logits, U, case["maxrej"], case["bound"], case["infl"])
        except Lost:
            o.bump("probe:draws not judged")
            return
        o.bump("probe:rejection rounds", rounds)
        o.bump("probe:bound resets", resets)
    else:
        if len(dr) != n or any(r["op"] != "categorical" or np.shape(r["out"]) != () for r in dr):
            o.bump("probe:draws not recognised")
            return
        pick = [int(r["out"]) for r in dr]
        evals = n * n
        for i, r in enumerate(dr):
            us = [U(i, j) for j in range(n)]
            if any(u is None for u in us):
                continue
            want = logits - np.array(us)
            lg = np.asarray(r["args"][0], float)
            if lg.shape != want.shape or not np.any(want > -np.inf):
                continue
            a, b = np.exp(lg - np.max(lg)), np.exp(want - np.max(want))
            check(close(a / a.sum(), b / b.sum(), 5e-3, 2e-3), "stitch-law", "%strajectory %d: stitched with log weights %s, should be %s", tag, i, lg, want)
    for i in range(n):
        check(same(V[s + 1:, i], recent[:, pick[i]]), "stitch-draw", "%strajectory %d did not get the block drawn for it (candidate %d)", tag, i, pick[i])
    extra = 0 if not case["bs"] else None
    if extra is not None:
        check(float(nte[-1]) == evals, "stitch-count", "%srecorded %s transition evaluations, stitching made %d", tag, nte[-1], evals)
    o.bump("probe:stitch draws replayed")
