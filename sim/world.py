"""Harness scenarios: targets whose exact values and derivatives are known in NumPy, with a fault plan."""
import numpy as np
import jax
from jax import numpy as jnp, random
import mocat
import seams
from seams import concrete, current, InjectedError

F32MAX = float(np.finfo(np.float32).max)


# ------------------------------------------------------------ pure potentials (xp = numpy or jnp)
def pot(kind, xp, x, par):
    a, b = par
    if kind == "gauss":
        return 0.5 * xp.sum(a * (x - b) ** 2)
    if kind == "quartic":
        return xp.sum(a * (x - b) ** 4 / 4. - (x - b) ** 2 / 2.)
    if kind == "cos":
        return xp.sum((x - b) ** 2 * a + 0.5 * xp.cos(3. * x))
    if kind == "half":      # gaussian restricted to x[0] > b - 0.5
        return xp.where(x[0] > b - 0.5, 0.5 * xp.sum(a * (x - b) ** 2), xp.inf)
    if kind == "flat":
        return 0. * xp.sum(x)
    if kind == "corr":      # correlated quadratic
        s = xp.sum(x - b)
        return 0.5 * xp.sum(a * (x - b) ** 2) + 0.25 * s ** 2
    raise KeyError(kind)


def gpot(kind, x, par):
    a, b = par
    x = np.asarray(x, float)
    if kind == "gauss":
        return a * (x - b)
    if kind == "quartic":
        return a * (x - b) ** 3 - (x - b)
    if kind == "cos":
        return 2 * a * (x - b) - 1.5 * np.sin(3. * x)
    if kind == "half":
        return a * (x - b) if x[0] > b - 0.5 else np.zeros_like(x)
    if kind == "flat":
        return np.zeros_like(x)
    if kind == "corr":
        return a * (x - b) + 0.5 * np.sum(x - b) * np.ones_like(x)
    raise KeyError(kind)


def region_bad(xp, x, freq, thr):
    """A pseudo-random region of bad points, as a pure function of x."""
    return xp.sin(freq * xp.sum(x * xp.arange(1, x.shape[-1] + 1))) > thr


class Faults:
    """plan: {"mode": none|call|region, "kind": nan|nanv|inf, "calls": [[cb, idx, action]...], "freq":, "thr":}"""

    def __init__(self, plan):
        self.plan = plan or {"mode": "none"}
        self.calls = {(c, i): act for c, i, act in self.plan.get("calls", [])}
        self.fired = {}

    def note(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1


def user_event(cb, x=None, key=None, faults=None, extra=None):
    """Registers one call of a user callback; returns the event (a dict) or None when not simulating."""
    c = current()
    if c is None:
        return None
    idx = c.user_calls.get(cb, 0)
    c.user_calls[cb] = idx + 1
    c.tick("user:" + cb)
    act = None
    if faults is not None:
        act = faults.calls.get((cb, idx)) or faults.calls.get(("*", sum(c.user_calls.values()) - 1))
        if act:
            faults.note(f"{act}@{cb}")
    ev = {"cb": cb, "idx": idx, "x": None if x is None else concrete(x), "act": act,
          "key": None if key is None or isinstance(key, jax.core.Tracer) else bytes(np.asarray(key).tobytes()),
          "tape": len(c.tape), "tick": c.ticks, "out": None}
    if extra:
        ev.update(extra)
    c.events.append(ev)
    if act == "raise":
        raise InjectedError(f"injected in {cb} call {idx}")
    return ev


def spoil(v, act):
    if act == "nan":
        return v * jnp.nan
    if act == "nanv":
        return v + jnp.nan
    if act == "inf":
        return v + jnp.inf
    return v


class Target(mocat.Scenario):
    name = "sim target"

    def __init__(self, spec, **kw):
        self.spec = spec
        self.dim = spec["dim"]
        self.faults = Faults(spec.get("faults"))
        self.noise = spec.get("noise", 0.)
        if not spec.get("has_prior_sample", True):
            self.prior_sample = mocat.Scenario.prior_sample.__get__(self)
        super().__init__(**kw)
        if spec.get("temperature") is not None:
            self.temperature = spec["temperature"]

    # -- pure views for oracles (NumPy, float64)
    def np_prior(self, x):
        return float(pot(self.spec["prior"], np, np.asarray(x, float), self.spec["prior_par"]))

    def np_lik(self, x):
        x = np.asarray(x, float)
        v = float(pot(self.spec["lik"], np, x, self.spec["lik_par"]))
        f = self.faults.plan
        if f["mode"] == "region" and region_bad(np, np.asarray(x, np.float32), np.float32(f["freq"]), f["thr"]):
            v = np.nan if f["kind"] != "inf" else np.inf
        return v

    def np_gprior(self, x):
        return gpot(self.spec["prior"], x, self.spec["prior_par"])

    def np_glik(self, x):
        f = self.faults.plan
        if f["mode"] == "region" and region_bad(np, np.asarray(x, np.float32), np.float32(f["freq"]), f["thr"]):
            return np.zeros(len(x))     # the derivative of the constant branch
        return gpot(self.spec["lik"], x, self.spec["lik_par"])

    def near_region_edge(self, x):
        f = self.faults.plan
        if self.spec.get("lik") == "half" and abs(float(x[0]) - (self.spec["lik_par"][1] - 0.5)) < 1e-4:
            return True
        if f["mode"] != "region":
            return False
        x = np.asarray(x, np.float32)
        s = np.sin(np.float32(f["freq"]) * np.sum(x * np.arange(1, x.shape[-1] + 1)))
        return abs(s - f["thr"]) < 1e-2

    # -- mocat API
    def prior_sample(self, random_key):
        ev = user_event("prior_sample", None, random_key, self.faults)
        with user_code():
            v = self.spec.get("init_scale", 1.) * random.normal(random_key, (self.dim,))
        if ev is not None:
            ev["out"] = concrete(v)
        return v

    def prior_potential(self, x, random_key=None):
        ev = user_event("prior_potential", x, random_key, self.faults)
        v = pot(self.spec["prior"], jnp, x, self.spec["prior_par"])
        if ev is not None:
            v = spoil(v, ev["act"])
            ev["out"] = concrete(v)
        return v

    def likelihood_potential(self, x, random_key=None):
        ev = user_event("likelihood_potential", x, random_key, self.faults)
        v = pot(self.spec["lik"], jnp, x, self.spec["lik_par"])
        f = self.faults.plan
        if self.noise and random_key is not None:
            v = v + self.noise * _key_noise(random_key)
        if f["mode"] == "region":
            bad = region_bad(jnp, x, f["freq"], f["thr"])
            v = jnp.where(bad, jnp.inf if f["kind"] == "inf" else jnp.nan, v)
        if ev is not None:
            v = spoil(v, ev["act"])
            ev["out"] = concrete(v)
            f = concrete(v)
            if f is not None and not np.isfinite(f) and ev["act"] is None:
                self.faults.note("region")
        return v


class user_code:
    """Draws made inside are the user's own."""

    def __enter__(self):
        self.c = current()
        if self.c is not None:
            self.c.user_depth += 1

    def __exit__(self, *a):
        if self.c is not None:
            self.c.user_depth -= 1
        return False


class ABCTarget(mocat.abc.ABCScenario):
    """Simulator y = A x + curvature + noise, failing (NaN) in a region or at chosen calls."""
    name = "sim abc target"

    def __init__(self, spec, **kw):
        self.spec = spec
        self.dim = spec["dim"]
        self.dim_obs = spec["dim_obs"]
        self.faults = Faults(spec.get("faults"))
        self.data = jnp.asarray(spec["data"], jnp.float32)
        r = np.random.default_rng(spec["seed"])
        self.mat = np.asarray(r.normal(size=(self.dim_obs, self.dim)) * spec.get("mat_scale", 1.), np.float32)
        super().__init__(**kw)

    def np_prior(self, x):
        return float(pot(self.spec["prior"], np, np.asarray(x, float), self.spec["prior_par"]))

    def np_bad(self, x):
        f = self.faults.plan
        return f["mode"] == "region" and bool(region_bad(np, np.asarray(x, np.float32), np.float32(f["freq"]), f["thr"]))

    near_region_edge = Target.near_region_edge

    def np_sim(self, x):
        """Noise-free simulator output."""
        x = np.asarray(x, float)
        y = self.mat.astype(float) @ x + self.spec["curve"] * np.sum(x ** 2)
        return y * np.nan if self.np_bad(x) else y

    def prior_sample(self, random_key):
        ev = user_event("prior_sample", None, random_key, self.faults)
        with user_code():
            v = self.spec["init_scale"] * random.normal(random_key, (self.dim,))
        if ev is not None:
            ev["out"] = concrete(v)
        return v

    def prior_potential(self, x, random_key=None):
        ev = user_event("prior_potential", x, random_key, self.faults)
        v = pot(self.spec["prior"], jnp, x, self.spec["prior_par"])
        if ev is not None:
            v = spoil(v, ev["act"])
            ev["out"] = concrete(v)
        return v

    def likelihood_sample(self, x, random_key):
        ev = user_event("likelihood_sample", x, random_key, self.faults)
        y = self.mat @ x + self.spec["curve"] * jnp.sum(x ** 2)
        with user_code():
            if self.spec["noise"]:
                y = y + self.spec["noise"] * random.normal(random_key, (self.dim_obs,))
        f = self.faults.plan
        if f["mode"] == "region":
            y = jnp.where(region_bad(jnp, x, f["freq"], f["thr"]), jnp.nan, y)
        if ev is not None:
            y = spoil(y, ev["act"])
            ev["out"] = concrete(y)
            if ev["out"] is not None and ev["act"] is None and np.any(np.isnan(ev["out"])):
                self.faults.note("region")
        return y


def gen_abc(rng, compiled=False, n_calls=40):
    dim = rng.choice([1, 2, 3])
    dobs = rng.choice([1, 2, 3])
    spec = {"dim": dim, "dim_obs": dobs, "prior": rng.choice(["gauss", "gauss", "flat"]),
            "prior_par": [round(rng.uniform(0.3, 1.5), 2), round(rng.uniform(-.5, .5), 2)], "init_scale": rng.choice([0.5, 1., 2.]),
            "data": [round(rng.uniform(-1, 1), 2) for _ in range(dobs)], "seed": rng.randrange(1000),
            "curve": rng.choice([0., 0.3]), "noise": 0. if compiled else rng.choice([0., 0.3, 1.]), "faults": {"mode": "none"}}
    if rng.random() < 0.7:
        if rng.random() < 0.4 and not compiled:
            spec["faults"] = {"mode": "call", "calls": [["likelihood_sample", rng.randint(0, n_calls), "nan"] for _ in range(rng.randint(1, 5))]}
        else:
            spec["faults"] = {"mode": "region", "kind": "nan", "freq": rng.choice([1., 2., 3.]), "thr": rng.choice([0., 0.5, 0.8])}
    return spec


def _key_noise(key):
    # deterministic function of the key that does not count as a library draw
    k = jnp.asarray(key, jnp.uint32)
    return (k[..., 0] % 1000).astype(jnp.float32) / 1000. - 0.5


def gen_target(rng, faults=True, dims=(1, 2, 3), liks=None, temperature=False, noise=False, n_calls=60,
               priors=("gauss", "flat"), compiled=False):
    kind = rng.choice(liks or ["gauss", "gauss", "quartic", "cos", "half", "corr"])
    dim = rng.choice(dims)
    spec = {"dim": dim, "lik": kind, "lik_par": [round(rng.uniform(0.3, 2.5), 2), round(rng.uniform(-1, 1), 2)],
            "prior": rng.choice(priors), "prior_par": [round(rng.uniform(0.3, 1.5), 2), round(rng.uniform(-.5, .5), 2)],
            "init_scale": rng.choice([0.5, 1., 1., 2.]), "has_prior_sample": rng.random() < 0.8,
            "faults": {"mode": "none"}}
    if temperature and rng.random() < 0.4:
        spec["temperature"] = round(rng.uniform(0.1, 1.5), 2)
    if faults:
        r = rng.random()
        if r < 0.3 and not compiled:
            k = rng.randint(1, 4)
            spec["faults"] = {"mode": "call", "calls": [
                [rng.choice(["likelihood_potential", "likelihood_potential", "prior_potential"]),
                 rng.randint(1, n_calls), rng.choice(["nan", "nanv", "inf"])] for _ in range(k)]}
        elif r < 0.55:
            spec["faults"] = {"mode": "region", "kind": rng.choice(["nan", "inf"]),
                              "freq": rng.choice([1., 2., 3.]), "thr": rng.choice([0., 0.5, 0.8])}
    if noise and rng.random() < 0.25:
        spec["noise"] = round(rng.uniform(0.2, 2.), 2)
    return spec


# ------------------------------------------------------------ draws
EDGE_U = [0.0, float(np.float32(1) - np.float32(2) ** -24), 2. ** -23]


class DrawPlan:
    """plan: {"uniform": {ordinal: value}, "normal": {ordinal: factor or value}}"""

    def __init__(self, plan):
        plan = plan or {}
        self.u = {int(k): v for k, v in plan.get("uniform", {}).items()}
        self.n = {int(k): v for k, v in plan.get("normal", {}).items()}
        self.iu = self.in_ = 0
        self.fired = 0

    def __call__(self, name, key, a, kw, out):
        if name == "uniform":
            i = self.iu
            self.iu += 1
            if i in self.u:
                self.fired += 1
                v = self.u[i]
                mn = kw.get("minval", a[2] if len(a) > 2 else 0.)
                mx = kw.get("maxval", a[3] if len(a) > 3 else 1.)
                return jnp.zeros_like(out) + jnp.asarray(mn + (mx - mn) * v, out.dtype)
        elif name == "normal":
            i = self.in_
            self.in_ += 1
            if i in self.n:
                self.fired += 1
                return out * jnp.asarray(self.n[i], out.dtype)
        return out


def gen_draws(rng, n_uniform, n_normal, p=0.4):
    plan = {"uniform": {}, "normal": {}}
    if rng.random() < p and n_uniform:
        for _ in range(rng.randint(1, max(1, n_uniform // 3))):
            plan["uniform"][str(rng.randrange(n_uniform))] = rng.choice(EDGE_U)
    if rng.random() < p / 2 and n_normal:
        for _ in range(rng.randint(1, 3)):
            plan["normal"][str(rng.randrange(n_normal))] = rng.choice([0., 3., -3., 6.])
    return plan


def snap(cd):
    """NumPy snapshot of a cdict (nested)."""
    out = {}
    for k, v in cd.__dict__.items():
        if isinstance(v, mocat.cdict):
            out[k] = snap(v)
        elif v is None or isinstance(v, (str, bool)) or callable(v):
            out[k] = v
        else:
            try:
                cv = concrete(v)
                out[k] = None if cv is None else np.array(cv)
            except Exception:
                out[k] = None
    return out


def traced(cls):
    """Subclass of a sampler recording every update (public extension point)."""
    class Traced(cls):
        def update(self, scenario, state, extra):
            c = current()
            if c is None or not c.step or any(isinstance(l, jax.core.Tracer) for l in jax.tree_util.tree_leaves(state)):
                return super().update(scenario, state, extra)
            rec = {"in": snap(state), "params": snap(extra.parameters) if hasattr(extra, "parameters") else {},
                   "iter": concrete(extra.iter) if hasattr(extra, "iter") else None,
                   "temperature": None, "tape0": len(c.tape), "ev0": len(c.events), "name": cls.__name__, "tick0": c.ticks}
            t = getattr(scenario, "temperature", None)
            rec["temperature"] = None if t is None else concrete(t)
            out_state, out_extra = super().update(scenario, state, extra)
            rec["out"] = snap(out_state)
            rec["params_out"] = snap(out_extra.parameters) if hasattr(out_extra, "parameters") else {}
            rec["tape1"], rec["ev1"], rec["tick1"] = len(c.tape), len(c.events), c.ticks
            k = getattr(out_extra, "random_key", None)
            rec["key_out"] = None if k is None or isinstance(k, jax.core.Tracer) else bytes(np.asarray(k).tobytes())
            c.stats.setdefault("updates", [])
            c.stats["updates"].append(rec)
            return out_state, out_extra
    Traced.__name__ = cls.__name__
    Traced.__qualname__ = cls.__qualname__
    return Traced


_traced_cache = {}


def T(cls):
    if cls not in _traced_cache:
        _traced_cache[cls] = traced(cls)
    return _traced_cache[cls]


def draws(ctx, rec, op):
    return [np.asarray(d["out"]) for d in ctx.tape[rec["tape0"]:rec["tape1"]] if d["op"] == op and not d["user"]]


class Violation(Exception):
    def __init__(self, code, msg):
        super().__init__(f"{code}: {msg}")
        self.code = code
        self.msg = msg


def check(ok, code, msg, *a):
    if not ok:
        raise Violation(code, msg % a if a else msg)


def close(a, b, rtol=1e-4, atol=1e-4):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def same(a, b):
    """Bitwise-equal arrays (NaN equal NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def key_of(i):
    return random.PRNGKey(int(i) & 0x7fffffff)
