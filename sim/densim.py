"""C21, C22: with every random draw in the simulator's hands a sampling function is a deterministic map of its draws.

C22: the density of what the map produces (density of the draws over the map's Jacobian) is compared with the potential.
C21: the joint law of states and observations is read off the real simulate, and conditioned exactly."""
import copy
import random as pyrandom
import numpy as np
import jax
import jax.numpy as jnp
from jax import random
import mocat
from mocat import ssm
import confsim
import seams
from confsim import abcs, toy, ssms, make_scen, special, effect, vec, spd, mat, r2
from engine import fingerprint
from world import check, key_of

X64 = np.float64
K0 = np.zeros(2, np.uint32)


# ------------------------------------------------------------------ feeding draws
def flat_kw(name, args, kw):
    names = {"normal": ("shape", "dtype"), "uniform": ("shape", "dtype", "minval", "maxval"), "multivariate_normal": ("mean", "cov", "shape")}
    d = dict(zip(names.get(name, ("shape", "dtype")), args))
    d.update(kw)
    return d


BASE = {"normal": lambda z: 0.5 * z ** 2, "uniform": lambda z: 0. * z, "exponential": lambda z: z, "gumbel": lambda z: z + np.exp(-z),
        "laplace": lambda z: np.abs(z), "logistic": lambda z: z + 2 * np.log1p(np.exp(-z)), "cauchy": lambda z: np.log1p(z ** 2),
        "multivariate_normal": lambda z: 0.5 * z ** 2}


class Unjudged(Exception):
    pass


class Map:
    """A sampling function as a map from its draws."""

    def __init__(self, f):
        self.f = f
        sites = []

        def hook(name, key, args, kw, out):
            sites.append((name, np.shape(out)))
            return out
        self.x0 = np.asarray(self._run(hook))
        self.sites = sites
        if any(s[0] not in BASE for s in sites):
            raise Unjudged(sorted({s[0] for s in sites} - set(BASE)))
        self.D = sum(int(np.prod(s[1])) for s in sites)

    def _run(self, hook):
        with seams.Ctx(step=True) as c:
            c.draw_hook = hook
            return self.f()

    def __call__(self, z):
        z = jnp.asarray(z)
        k, pos = [0], [0]

        def hook(name, key, args, kw, out):
            if k[0] >= len(self.sites) or self.sites[k[0]] != (name, np.shape(out)):
                raise Unjudged("draws depend on draws")
            k[0] += 1
            n = int(np.prod(np.shape(out)))
            v = z[pos[0]:pos[0] + n].reshape(np.shape(out))
            pos[0] += n
            a = flat_kw(name, args, kw)
            if name == "uniform":
                lo, hi = a.get("minval", 0.), a.get("maxval", 1.)
                return lo + v * (hi - lo)
            if name == "multivariate_normal":
                return a["mean"] + v @ jnp.linalg.cholesky(a["cov"]).T
            return v
        return jnp.ravel(self._run(hook))

    def kinds(self):
        return [k for k, s in self.sites for _ in range(int(np.prod(s)))]

    def draw(self, rng, wild):
        out = []
        for k in self.kinds():
            u = min(max(rng.random(), 1e-6), 1 - 1e-6)
            if wild and rng.random() < 0.5:
                u = rng.choice([1e-4, 1e-3, 1 - 1e-3, 1 - 1e-4])
            if k in ("normal", "multivariate_normal"):
                v = pyrandom.Random(u).gauss(0, 1) if not wild else rng.choice([-4.5, -3., 3., 4.5, 0.1])
            elif k == "uniform":
                v = u
            elif k == "exponential":
                v = -np.log(u)
            else:
                v = np.log(u / (1 - u))
            out.append(v)
        return np.asarray(out, np.float32)

    def base(self, z):
        return float(sum(BASE[k](X64(v)) for k, v in zip(self.kinds(), z)))

    def jac(self, z):
        try:
            return np.asarray(jax.jacfwd(self)(jnp.asarray(z)), X64)
        except Unjudged:
            raise
        except Exception:
            return self.fd(z, 1e-2)

    def fd(self, z, h=0.04):
        cols = []
        for i in range(len(z)):
            e = np.zeros(len(z), np.float32)
            e[i] = h
            cols.append((np.asarray(self(z + e), X64) - np.asarray(self(z - e), X64)) / (X64(np.float32(z[i] + e[i])) - X64(np.float32(z[i] - e[i]))))
        return np.stack(cols, 1)


def neg_log_density(m, z, fd=False):
    """Negative log density (up to the constant of the draws' density) of the map's value at the draws z."""
    x = np.asarray(m(z), X64)
    J = m.fd(z) if fd else m.jac(z)
    if m.D == x.size:
        s, ld = np.linalg.slogdet(J)
        if s == 0 or not np.isfinite(ld):
            return x, np.inf
        return x, m.base(z) + ld
    if m.D > x.size and set(m.kinds()) <= {"normal", "multivariate_normal"}:
        J2 = m.jac(z * 0.5 - 0.3)
        if not np.allclose(J, J2, rtol=1e-3, atol=1e-4):
            raise Unjudged("not linear in its draws")
        C = J @ J.T
        r = x - np.asarray(m(0. * z), X64)
        return x, 0.5 * r @ np.linalg.solve(C, r) + 0.5 * np.linalg.slogdet(C)[1]
    raise Unjudged(f"{m.D} draws for {x.size} coordinates")


def scalar(v, label):
    v = np.asarray(v, X64)
    check(v.size == 1, "not-a-number", "%s is not a single number but an array of shape %s", label, v.shape)
    return float(v.ravel()[0])


def same_law(o, label, conds, rng, m=4, wild=True, fd=False, tol=3e-3):
    """conds: list of (sample function, potential of the flat sample); the constant is shared by all of them."""
    cs, worst = [], None
    for f, pot in conds:
        try:
            mp = Map(f)
        except Unjudged as e:
            o.bump("probe:sampler not judged")
            return None
        for j in range(m):
            w = wild and j % 2 == 1
            z = mp.draw(rng, w)
            if w:
                o.bump("fault:extreme draws")
            try:
                x, nl = neg_log_density(mp, z, fd)
            except Unjudged as e:
                o.bump("probe:sampler not judged")
                return None
            check(np.isfinite(x).all(), "sample-not-finite", "%s: draws %s give %s", label, z[:4], x[:4])
            check(np.isfinite(nl), "degenerate", "%s: the samples do not vary in all their coordinates", label)
            p = scalar(pot(x.astype(np.float32)), label + " potential")
            check(np.isfinite(p), "impossible-sample", "%s: %s can be drawn but its potential is %s", label, x[:4], p)
            cs.append((p - nl, 1 + abs(p) + abs(nl), x, p, nl))
            o.bump("densities compared")
    ref = cs[0]
    for c in cs[1:]:
        d = abs(c[0] - ref[0])
        check(d <= tol * (c[1] + ref[1]), "density-differs", "%s: potential and density of the samples differ by %.4g at %s but by %.4g at %s",
              label, c[0], np.round(c[2][:4], 3), ref[0], np.round(ref[2][:4], 3))
    return [round(c[3], 3) for c in cs]


def support(o, label, f, pot, d, rng):
    """Beyond everything the sampling function can reach the potential excludes."""
    try:
        mp = Map(f)
    except Unjudged:
        return
    if mp.D != d or set(mp.kinds()) != {"uniform"}:
        return
    eps = 1e-7
    a, b = np.asarray(mp(np.full(d, eps, np.float32)), X64), np.asarray(mp(np.full(d, 1 - eps, np.float32)), X64)
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    inside = scalar(pot(np.asarray(mp(np.full(d, 0.6, np.float32)))), label)
    for _ in range(3):
        x = np.asarray(mp(mp.draw(rng, False)), X64)
        i = rng.randrange(d)
        w = (hi[i] - lo[i]) * rng.choice([0.02, 0.3, 1.])
        x[i] = hi[i] + w if rng.random() < 0.5 else lo[i] - w
        p = scalar(pot(x.astype(np.float32)), label)
        check(p > inside + 9, "support", "%s: potential %.4g at %s, which is never drawn (%.4g inside)", label, p, np.round(x, 3), inside)
        o.bump("fault:outside the support")
    for u in (0., np.float32(1 - 2. ** -24)):
        x = np.asarray(mp(np.full(d, u, np.float32)))
        check(np.isfinite(x).all(), "sample-not-finite", "%s: the extreme draw %g gives %s", label, u, x)
        p = scalar(pot(x), label)
        check(np.isfinite(p), "impossible-sample", "%s: the extreme draw %g gives %s of potential %s", label, u, x, p)
        o.bump("fault:extreme draws")


# ------------------------------------------------------------------ gradients
def grads(o, label, f, g, x, tol=0.02):
    """g(x) is the derivative of the scalar f at x."""
    x = np.asarray(x, np.float32)
    got = np.asarray(g(jnp.asarray(x)), X64)
    check(got.shape == x.shape, "gradient-shape", "%s: gradient of shape %s at a point of shape %s", label, got.shape, x.shape)
    auto = np.asarray(jax.grad(lambda v: jnp.ravel(jnp.asarray(f(v)))[0])(jnp.asarray(x)), X64)
    scale = 1 + np.abs(auto).max()
    check(np.allclose(got, auto, rtol=2e-3, atol=2e-4 * scale), "gradient", "%s at %s: %s, derivative %s", label, np.round(x.ravel()[:4], 3), got.ravel()[:4], auto.ravel()[:4])
    v0 = abs(scalar(f(jnp.asarray(x)), label))
    h = 5e-3
    for i in range(min(x.size, 3)):
        e = np.zeros(x.size, np.float32)
        e[i] = h
        e = e.reshape(x.shape)
        a, b, c, d = (scalar(f(jnp.asarray(x + k * e)), label) for k in (1, -1, 2, -2))
        n1, n2 = (a - b) / (2 * h), (c - d) / (4 * h)
        if not np.isfinite(n1 + n2):
            continue
        err = 3 * abs(n1 - n2) + 4e-7 * v0 / h * 4 + tol * scale
        check(abs(got.ravel()[i] - n1) <= err, "gradient", "%s at %s: %.5g in direction %d, the potential changes by %.5g", label, np.round(x.ravel()[:4], 3), got.ravel()[i], i, n1)
        o.bump("directions checked")


# ------------------------------------------------------------------ a linear Gaussian model that changes with time
class TimeLG(ssm.LinearGaussian):
    name = "time-varying linear Gaussian"

    def __init__(self, S):
        self.S = {k: jnp.asarray(v[1], jnp.float32) for k, v in S.items()}
        self.dim, self.dim_obs = self.S["m"].shape[0], self.S["H"].shape[0]
        super().__init__()

    def _sqrt(self, name, f):
        return jnp.linalg.cholesky(self.S[name]) * jnp.sqrt(f)

    def _prec(self, name, f):
        return jnp.linalg.inv(jnp.linalg.cholesky(self.S[name])).T / jnp.sqrt(f)

    def _det(self, name, f):
        return 1 / (jnp.linalg.det(self.S[name]) * f ** self.S[name].shape[0])

    def get_initial_mean(self, t):
        return self.S["m"] * (1 + 0.1 * t)

    def get_initial_covariance_sqrt(self, t):
        return self._sqrt("P", 1. + t)

    def get_initial_precision_sqrt(self, t):
        return self._prec("P", 1. + t)

    def get_initial_precision_det(self, t):
        return self._det("P", 1. + t)

    def get_transition_matrix(self, s, t):
        return jnp.eye(self.dim) + (t - s) * self.S["F"]

    def get_transition_covariance_sqrt(self, s, t):
        return self._sqrt("Q", (t - s) * (1 + 0.2 * s))

    def get_transition_precision_sqrt(self, s, t):
        return self._prec("Q", (t - s) * (1 + 0.2 * s))

    def get_transition_precision_det(self, s, t):
        return self._det("Q", (t - s) * (1 + 0.2 * s))

    def get_likelihood_matrix(self, t):
        return self.S["H"] * (1 + 0.3 * t)

    def get_likelihood_covariance_sqrt(self, t):
        return self._sqrt("R", 0.5 + t)

    def get_likelihood_precision_sqrt(self, t):
        return self._prec("R", 0.5 + t)

    def get_likelihood_precision_det(self, t):
        return self._det("R", 0.5 + t)


def gen_tlg(rng):
    d, k = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    return {"m": vec(rng, d), "P": spd(rng, d), "F": ["a", [[r2(rng, -0.6, 0.6) for _ in range(d)] for _ in range(d)]], "Q": spd(rng, d), "H": mat(rng, k, d), "R": spd(rng, k)}


# ------------------------------------------------------------------ generation
def times(rng, n):
    t, out = r2(rng, 0., 0.5), []
    for _ in range(n):
        out.append(round(t, 3))
        t += rng.choice([0.1, 0.5, 1., 1.7])
    return out


def gen(prop, rng, i, tier):
    c = {"prop": prop, "seed": rng.randrange(1 << 30), "key": rng.randrange(1 << 30), "sets": []}
    deep = tier == "thorough"
    if prop == "C21":
        c["T"] = rng.choice([1, 2, 2, 3, 4, 5] + ([7, 10] if deep else []))
        c["t"] = times(rng, c["T"])
        if rng.random() < 0.35:
            c["kind"], c["init"] = "tlg", gen_tlg(rng)
        else:
            c["kind"] = "lg"
            c["fixed"], c["init"], g, names, obs = ssms(rng, "lg")
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                nm = rng.choice(names)
                c["sets"].append([nm, g[nm]()])
        c["obs"] = rng.choice(["model", "model", "wild", "zero"])
        c["compiled"] = rng.random() < 0.3
        return c
    c["fam"] = fam = ["ssm", "abc", "toy", "filter"][i % 4]
    if fam == "ssm":
        kind = rng.choice(["lg", "lg", "nlg", "nlg", "sv", "sv", "nl1d", "lorenz63", "lorenz96", "tlg"])
        c["T"] = rng.choice([1, 2, 2, 3])
        c["t"] = times(rng, c["T"] + 1)
    elif fam == "filter":
        kind = rng.choice(["nlg", "nlg", "nlg", "lg", "sv", "lorenz63"])
        c["filter"] = rng.choice(["optimal", "optimal", "enkf", "boot"]) if kind in ("nlg", "lorenz63") else "boot"
        c["n"] = rng.choice([1, 2, 3])
        c["t"] = times(rng, 2)
    elif fam == "abc":
        kind = rng.choice(["lin", "lin", "gk", "gka", "gkt", "gkat", "lv", "sir"])
    else:
        kind = rng.choice(["gauss", "gauss", "mix", "mix", "mix2d", "gauss2d", "rast", "banana", "well", "funnel"])
    c["kind"] = kind
    if kind == "tlg":
        c["init"] = gen_tlg(rng)
        return c
    if kind == "funnel":
        c["fixed"], c["init"], g, names = {"kind": "funnel", "dim": 2}, {}, {}, []
    elif fam in ("ssm", "filter"):
        c["fixed"], c["init"], g, names, _ = ssms(rng, kind)
        if kind == "sv" and rng.random() < 0.3:
            c["init"].pop("scen.likelihood_covariance_diag")     # the documented defaults too
    elif fam == "abc":
        c["fixed"], c["init"], g, names, _ = abcs(rng, kind)
        names = [n for n in names if n not in ("scen.prior_potential", "scen.prior_sample", "scen.data")]
        if kind in ("gk", "gka", "gkt", "gkat"):
            names = names + ["scen.prior_mins", "scen.prior_maxs"]
    else:
        c["fixed"], c["init"], g, names = toy(rng, kind)
        c["init"].pop("scen.prior_sample", None)
    c["fixed"].setdefault("alg", "none")
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if names:
            nm = rng.choice(names)
            c["sets"].append([nm, g[nm]()])
    return c


def shrinks(case):
    for k in range(len(case["sets"])):
        c = copy.deepcopy(case)
        del c["sets"][k]
        yield c
    if case.get("T", 1) > 1:
        c = copy.deepcopy(case)
        c["T"] -= 1
        c["t"] = c["t"][:-1]
        yield c
    if case.get("obs") in ("wild", "model"):
        yield dict(case, obs="zero")
    if case.get("compiled"):
        yield dict(case, compiled=False)
    for k, v in case["init"].items():       # diagonal covariances
        if v[0] == "a" and np.ndim(v[1]) == 2 and "cov" in k and np.shape(v[1])[0] == np.shape(v[1])[1]:
            for w in (np.eye(len(v[1])), np.diag(np.diag(v[1]))):
                if not np.array_equal(w, v[1]):
                    c = copy.deepcopy(case)
                    c["init"][k] = ["a", w.tolist()]
                    yield c


def build(case):
    S = copy.deepcopy(case["init"])
    if case["kind"] == "tlg":
        return TimeLG(S), S
    if case["kind"] == "funnel":
        return mocat.twodim.NealFunnel(), S
    s = make_scen({"fixed": case["fixed"], "fam": "ssm" if case.get("fam") in ("ssm", "filter", None) else case["fam"], "freshkw": False}, S)
    for nm, v in case["sets"]:
        setattr(s, nm[5:], special(nm, v))
        S[nm] = v
    return s, S


# ------------------------------------------------------------------ C21
def run21(case, o):
    m, S = build(case)
    t = jnp.asarray(case["t"], jnp.float32)
    n, d, k = len(case["t"]), m.dim, m.dim_obs
    key = key_of(case["key"])

    def f():
        s = m.simulate(t, key)
        return jnp.concatenate([jnp.ravel(s.x), jnp.ravel(s.y)])
    mp = Map(f)
    o.bump("ticks", mp.D)
    z0 = np.zeros(mp.D, np.float32)
    b = np.asarray(mp(z0), X64)
    A = np.stack([(np.asarray(mp(e), X64) - b) for e in np.eye(mp.D, dtype=np.float32)], 1)
    C = A @ A.T
    nx = n * d
    r = np.random.default_rng(case["seed"])
    y = {"model": lambda: np.asarray(mp(r.normal(size=mp.D).astype(np.float32)))[nx:], "zero": lambda: np.zeros(n * k),
         "wild": lambda: r.normal(size=n * k) * 20}[case["obs"]]().astype(np.float32)
    if case["obs"] == "wild":
        o.bump("fault:outlying observations")
    ys = jnp.asarray(y).reshape(n, k)
    with seams.Ctx(step=not case["compiled"], record=False):
        mus, covs = ssm.run_kalman_filter_for_marginals(m, ys, t)[:2]
        smus, scovs = ssm.run_kalman_smoother_for_marginals(m, ys, t)[:2]
        s2 = ssm.run_kalman_smoother_for_marginals(m, ys, t, (mus, covs))
        lag = ssm.run_kalman_smoother_for_marginals_and_lag_ones(m, ys, t)

    def post(upto):
        Y = np.arange(nx, nx + upto * k)
        X = np.arange(nx)
        G = np.linalg.solve(C[np.ix_(Y, Y)], C[np.ix_(Y, X)]).T
        return b[X] + G @ (y[:upto * k].astype(X64) - b[Y]), C[np.ix_(X, X)] - G @ C[np.ix_(Y, X)]

    def cmp(what, got, want):
        got = np.asarray(got, X64)
        check(got.shape == want.shape, "shape", "%s has shape %s, not %s", what, got.shape, want.shape)
        tol = 5e-3 * (1 + np.abs(want).max())
        check(np.isfinite(got).all() and np.abs(got - want).max() <= tol, "posterior-differs", "%s is %s, exactly %s", what, np.round(got.ravel()[:6], 4), np.round(want.ravel()[:6], 4))
        o.bump("moments compared", got.size)
    check(np.shape(mus) == (n, d) and np.shape(smus) == (n, d), "shape", "means of shapes %s and %s for %d times and dimension %d", np.shape(mus), np.shape(smus), n, d)
    for j in range(n):
        mu, cv = post(j + 1)
        I = slice(j * d, (j + 1) * d)
        cmp(f"filter mean at time {j} of {n}", mus[j], mu[I])
        cmp(f"filter covariance at time {j} of {n}", covs[j], cv[I, I])
    mu, cv = post(n)
    for j in range(n):
        I = slice(j * d, (j + 1) * d)
        for nm, (a, c) in {"smoother": (smus, scovs), "smoother given the filter": s2, "smoother with lag ones": lag[:2]}.items():
            cmp(f"{nm} mean at time {j} of {n}", a[j], mu[I])
            cmp(f"{nm} covariance at time {j} of {n}", c[j], cv[I, I])
        if j + 1 < n:
            N = slice((j + 1) * d, (j + 2) * d)
            cmp(f"lag-one moment at time {j} of {n}", lag[2][j], cv[I, N] + np.outer(mu[I], mu[N]))
    o.nontrivial = True
    o.fp = fingerprint(case["kind"], S, case["sets"], np.round(mu, 3).tolist(), n)


# ------------------------------------------------------------------ C22
def run22(case, o):
    rng = pyrandom.Random(case["seed"])
    s, S = build(case)
    o.bump("settings changed", len(case["sets"]))
    o.nontrivial, o.fp = True, fingerprint(case["kind"], S, case["sets"])
    log = {"ssm": ssm_laws, "filter": filter_laws, "abc": abc_laws, "toy": toy_laws}[case["fam"]](case, o, s, S, rng)
    o.nontrivial = True
    o.fp = fingerprint(case["kind"], S, case["sets"], log)


def rnd(rng, *shape, scale=1.):
    return np.asarray(np.random.default_rng(rng.randrange(1 << 30)).normal(size=shape) * scale, np.float32)


def ssm_laws(case, o, m, S, rng):
    key = key_of(case["key"])
    t = [float(v) for v in case["t"]]
    d = m.dim
    nm = case["kind"]
    out = []
    sc = 3. if nm.startswith("lorenz") else 1.
    out.append(same_law(o, f"{nm} initial", [(lambda: m.initial_sample(t[0], key), lambda x: m.initial_potential(jnp.asarray(x), t[0]))], rng))
    xs = [jnp.asarray(rnd(rng, d, scale=sc)) for _ in range(3)]
    dt = t[1] if not nm.startswith("lorenz") else t[0] + 0.05
    out.append(same_law(o, f"{nm} transition", [(lambda x=x: m.transition_sample(x, t[0], dt, key), lambda v, x=x: m.transition_potential(x, t[0], jnp.asarray(v), dt)) for x in xs], rng, m=3))
    out.append(same_law(o, f"{nm} likelihood", [(lambda x=x: m.likelihood_sample(x, t[0], key), lambda y, x=x: m.likelihood_potential(x, jnp.asarray(y), t[0])) for x in xs], rng, m=3))
    x, y = xs[0], jnp.asarray(rnd(rng, m.dim_obs))
    grads(o, f"{nm} grad_initial_potential", lambda v: m.initial_potential(v, t[0]), lambda v: m.grad_initial_potential(v, t[0]), x)
    grads(o, f"{nm} grad_likelihood_potential", lambda v: m.likelihood_potential(v, y, t[0]), lambda v: m.grad_likelihood_potential(v, y, t[0]), x)
    if not nm.startswith("lorenz"):
        grads(o, f"{nm} grad_transition_potential (previous)", lambda v: m.transition_potential(v, t[0], xs[1], dt), lambda v: m.grad_transition_potential(v, t[0], xs[1], dt)[0], x)
        grads(o, f"{nm} grad_transition_potential (new)", lambda v: m.transition_potential(xs[1], t[0], v, dt), lambda v: m.grad_transition_potential(xs[1], t[0], v, dt)[1], x)
        n = case["T"]
        ts = jnp.asarray(t[:n], jnp.float32)

        def f():
            r = m.simulate(ts, key)
            return jnp.concatenate([jnp.ravel(r.x), jnp.ravel(r.y)])

        def pot(v):
            return m.smoothing_potential(jnp.asarray(v[:n * d]).reshape(n, d), jnp.asarray(v[n * d:]).reshape(n, m.dim_obs), ts)
        out.append(same_law(o, f"{nm} simulation of {n} times", [(f, pot)], rng, m=3, wild=False, fd=True, tol=6e-3))
        ya = jnp.asarray(rnd(rng, n, m.dim_obs))
        grads(o, f"{nm} grad_smoothing_potential of {n} times", lambda v: m.smoothing_potential(v, ya, ts), lambda v: m.grad_smoothing_potential(v, ya, ts), rnd(rng, n, d))
    return out


def filter_laws(case, o, m, S, rng):
    key = key_of(case["key"])
    f = {"optimal": ssm.OptimalNonLinearGaussianParticleFilter, "enkf": ssm.EnsembleKalmanFilter, "boot": ssm.BootstrapFilter}[case["filter"]]()
    t0, t1 = (float(v) for v in case["t"])
    if case["kind"] == "lorenz63":
        t1 = t0 + 0.05
    f.startup(m)
    d, n = m.dim, case["n"]
    nm = f"{case['kind']} {case['filter']}"
    out = []
    y = jnp.asarray(rnd(rng, m.dim_obs, scale=2.))
    xs = [jnp.asarray(rnd(rng, d)) for _ in range(3)]
    ref = ssm.OptimalNonLinearGaussianParticleFilter() if case["filter"] == "enkf" else f
    ref.startup(m)
    keys = random.split(key, n)
    out.append(same_law(o, f"{nm} initial particles", [(lambda: f.initial_sample_and_weight_vectorised(m, y, t0, keys)[0],
                                                       lambda v: sum(scalar(ref.initial_potential(m, x, y, t0), nm) for x in jnp.asarray(v).reshape(n, d)))], rng, m=3))
    # initial weights make up for the proposal: prior x likelihood = proposal x weight
    cs = []
    for x in xs:
        full = scalar(m.initial_potential(x, t0), nm) + scalar(m.likelihood_potential(x, y, t0), nm)
        w = 0. if case["filter"] in ("optimal", "enkf") else scalar(f.initial_log_weight(m, x, y, t0), nm)
        cs.append((full - scalar(ref.initial_potential(m, x, y, t0), nm) + w, 1 + abs(full)))
    level(o, f"{nm} initial proposal and weight", cs)
    if case["filter"] == "enkf":
        return out
    if f.initial_sample.__func__ is not ssm.ParticleFilter.initial_sample:
        out.append(same_law(o, f"{nm} initial particle", [(lambda: f.initial_sample(m, y, t0, key), lambda v: f.initial_potential(m, jnp.asarray(v), y, t0))], rng, m=3))
    out.append(same_law(o, f"{nm} proposal", [(lambda x=x: f.proposal_sample(m, x, t0, y, t1, key), lambda v, x=x: f.proposal_potential(m, x, t0, jnp.asarray(v), y, t1)) for x in xs], rng, m=3))
    xp = jnp.stack([xs[i % 3] for i in range(n)])
    out.append(same_law(o, f"{nm} proposed particles", [(lambda: f.propose_and_intermediate_weight_vectorised(m, xp, t0, y, t1, keys)[0],
                                                        lambda v: sum(scalar(f.proposal_potential(m, xp[i], t0, x, y, t1), nm) for i, x in enumerate(jnp.asarray(v).reshape(n, d))))], rng, m=3))
    cs = []
    for x in xs:
        for _ in range(2):
            v = x + jnp.asarray(rnd(rng, d, scale=0.7))
            full = scalar(m.transition_potential(x, t0, v, t1), nm) + scalar(m.likelihood_potential(v, y, t1), nm)
            q = scalar(f.proposal_potential(m, x, t0, v, y, t1), nm)
            w = scalar(f.intermediate_log_weight(m, x, t0, v, y, t1), nm)
            cs.append((full - q + w, 1 + abs(full) + abs(q)))
    level(o, f"{nm} proposal and incremental weight", cs)
    return out


def level(o, label, cs, tol=3e-3):
    for c in cs[1:]:
        check(np.isfinite(c[0]) and abs(c[0] - cs[0][0]) <= tol * (c[1] + cs[0][1]), "weight-density", "%s: prior x likelihood over proposal x weight is not constant: %.4g against %.4g in logarithm",
              label, c[0], cs[0][0])
        o.bump("densities compared")


def abc_laws(case, o, s, S, rng):
    key = key_of(case["key"])
    nm, d = case["kind"], s.dim
    out = []
    pot = lambda x: s.prior_potential(jnp.asarray(x), K0)
    tr = case["fixed"].get("transformed")
    out.append(same_law(o, f"{nm} prior", [(lambda: s.prior_sample(key), pot)], rng, m=6))
    support(o, f"{nm} prior", lambda: s.prior_sample(key), pot, d, rng)
    if nm in ("gkt", "gkat") or tr:
        x = jnp.asarray(rnd(rng, d))
        r = np.asarray(s.unconstrain(s.constrain(x)), X64)
        check(np.allclose(r, x, rtol=1e-2, atol=1e-2), "transform", "%s: unconstrain undoes constrain to %s from %s", nm, r, x)
        c2 = copy.deepcopy(case)
        c2["fixed"]["kind"] = c2["kind"] = {"gkt": "gk", "gkat": "gka"}.get(nm, nm)
        c2["fixed"]["transformed"] = False
        u, _ = build(c2)
        out.append(same_law(o, f"{nm} transformed prior", [(lambda: s.constrain(s.prior_sample(key)), lambda x: u.prior_potential(jnp.asarray(x), K0))], rng, m=4, wild=False))
        if nm in ("gkt", "gkat"):
            a, b = s.full_data_sample(x, key), u.full_data_sample(s.constrain(x), key)
            check(np.allclose(a, b, rtol=1e-3, atol=1e-3), "transform", "%s: simulated data %s, at the constrained position %s", nm, a[:4], b[:4])
    if nm == "lin":
        xs = [jnp.asarray(rnd(rng, d)) for _ in range(3)]

        def lik(x):
            def f(y):
                old, s.data = s.data, jnp.asarray(y)
                try:
                    return s.likelihood_potential(x, K0)
                finally:
                    s.data = old
            return f
        out.append(same_law(o, "linear Gaussian likelihood", [(lambda x=x: s.likelihood_sample(x, key), lik(x)) for x in xs], rng, m=3))
        x = rnd(rng, d)
        if hasattr(s, "init_grad"):
            s.init_grad()
        for g in ("prior", "likelihood"):
            grads(o, f"linear Gaussian grad_{g}_potential", lambda v: getattr(s, g + "_potential")(v, K0), lambda v: getattr(s, f"grad_{g}_potential")(v, K0), x)
    if nm in ("gka", "gkat"):
        c2 = copy.deepcopy(case)
        c2["fixed"]["kind"] = c2["kind"] = "gk"
        c2["fixed"]["dim"] = 4
        own = {"B": 1., "g": 2., "k": 0.5}
        own.update({k[5:]: special(k, v) for k, v in list(c2["init"].items()) + c2["sets"] if k[5:] in own})
        c2["init"] = {k: v for k, v in c2["init"].items() if k[5:] not in ("B", "g", "k", "prior_mins", "prior_maxs")}
        c2["sets"] = [v for v in c2["sets"] if v[0][5:] not in ("B", "g", "k", "prior_mins", "prior_maxs")]
        u, _ = build(c2)
        x = jnp.asarray([r2(rng, 0.2, 5.)]) if nm == "gka" else jnp.asarray([r2(rng, -1., 1.)])
        xc = x if nm == "gka" else s.constrain(x)
        a, b = s.full_data_sample(x, key), u.full_data_sample(jnp.asarray([float(xc[0]), own["B"], own["g"], own["k"]]), key)
        if not np.allclose(a, b, rtol=1e-3, atol=1e-3):
            k = u.full_data_sample(jnp.asarray([float(xc[0]), own["B"], own["g"], float(s.c)]), key)
            check(not np.allclose(a, k, rtol=1e-3, atol=1e-3), "only-a-ignores-k", "%s: the kurtosis exponent is c, the setting k has no effect", nm)
        check(np.allclose(a, b, rtol=1e-3, atol=1e-3), "only-a", "%s: simulated data %s, the full model at B, g, k = %s gives %s", nm, a[:4], own, b[:4])
    return out


def toy_laws(case, o, s, S, rng):
    nm, d = case["kind"], s.dim
    out = []
    pts = [rnd(rng, d), rnd(rng, d, scale=0.3), rnd(rng, d, scale=4.), np.zeros(d, np.float32)]
    if nm in ("gauss", "mix", "gauss2d", "mix2d"):
        ref = reference(nm, S, d, case["fixed"].get("K"))
        far = pts + [rnd(rng, d, scale=15.), rnd(rng, d, scale=30.)]
        o.bump("fault:far points", 2)
        cs = []
        for x in far:
            want = ref(x.astype(X64))
            got = scalar(s.likelihood_potential(jnp.asarray(x), K0), nm + " likelihood_potential")
            check(np.isfinite(got), "density-differs", "%s: likelihood_potential %s at %s where the configured density has %.4g", nm, got, x, want)
            cs.append((got - want, 1 + abs(want), x))
        for c in cs[1:]:
            check(abs(c[0] - cs[0][0]) <= 2e-3 * (c[1] + cs[0][1]), "density-differs", "%s: likelihood_potential differs from the configured density by %.4g at %s but by %.4g at %s",
                  nm, c[0], np.round(c[2], 3), cs[0][0], np.round(cs[0][2], 3))
            o.bump("densities compared")
        out.append([round(c[0], 3) for c in cs])
        if nm in ("mix", "mix2d"):
            x = pts[0]
            check(np.allclose(float(s.dens(jnp.asarray(x))), np.exp(-scalar(s.likelihood_potential(jnp.asarray(x), K0), nm)), rtol=2e-3, atol=1e-12), "density-differs", "mixture dens %s is not exp(-likelihood_potential)",
                  s.dens(jnp.asarray(x)))
            k = case["fixed"]["K"]
            tot = sum(float(s.component_dens(jnp.asarray(x), j)) for j in range(k))
            check(np.allclose(tot, float(s.dens(jnp.asarray(x))), rtol=2e-3), "density-differs", "mixture components add up to %s, dens is %s", tot, s.dens(jnp.asarray(x)))
    T = r2(rng, 0.2, 2.)
    s.temperature = T
    for x in pts:
        for g in ("potential", "likelihood_potential", "prior_potential"):
            if g == "prior_potential" and "scen.prior_potential" not in S and nm in ("gauss2d", "mix2d", "banana", "funnel"):
                continue
            grads(o, f"{nm} grad_{g}", lambda v: getattr(s, g)(v, K0), lambda v: getattr(s, "grad_" + g)(v, K0), x)
        v, g = s.potential_and_grad(jnp.asarray(x), K0)
        check(np.allclose(v, s.potential(jnp.asarray(x), K0), rtol=1e-3, atol=1e-3) and np.allclose(g, s.grad_potential(jnp.asarray(x), K0), rtol=1e-3, atol=1e-3), "gradient", "%s potential_and_grad is not potential and grad_potential", nm)
    if hasattr(s, "vec_potential"):
        a, b = rnd(rng, 3, scale=2.), rnd(rng, 2, scale=2.)
        grid = np.asarray(s.vec_potential(jnp.asarray(a), jnp.asarray(b)), X64)
        check(grid.shape == (2, 3), "grid", "%s vec_potential of 3 x 2 points has shape %s", nm, grid.shape)
        for i in range(2):
            for j in range(3):
                p = scalar(s.potential(jnp.asarray([a[j], b[i]]), K0), nm)
                check(abs(grid[i, j] - p) <= 1e-3 * (1 + abs(p)), "grid", "%s vec_potential %.5g at (%.3g, %.3g), potential %.5g", nm, grid[i, j], a[j], b[i], p)
    return out


def reference(nm, S, d, K):
    v = {k[5:]: np.asarray(x[1], X64) if x[0] == "a" else None for k, x in S.items()}
    full = lambda c: np.diag(c) if np.ndim(c) == 1 else c
    if nm in ("gauss", "gauss2d"):
        P = np.linalg.inv(full(v["covariance"]))
        return lambda x: 0.5 * (x - v["mean"]) @ P @ (x - v["mean"])
    c = v.get("covariances")
    C = [np.eye(d)] * K if c is None else [c] * K if c.shape == (d, d) and not (K == d and c.ndim == 3) else list(c)
    P = [np.linalg.inv(m) for m in C]

    def f(x):
        e = [np.log(w) - 0.5 * np.linalg.slogdet(m)[1] - 0.5 * (x - u) @ p @ (x - u) for w, m, p, u in zip(v["weights"], C, P, v["means"])]
        mx = max(e)
        return -(mx + np.log(sum(np.exp(q - mx) for q in e)))
    return f


def run(case, o):
    return run21(case, o) if case["prop"] == "C21" else run22(case, o)
