"""C19: after any history of changes, evaluations, runs and failed runs, objects behave as freshly built with the final settings."""
import copy
import numpy as np
import jax
import jax.numpy as jnp
from jax import random
from jax.example_libraries import optimizers
import mocat
from mocat import ssm, kernels
from mocat.abc import scenarios as abc_scen
from mocat.src.core import is_implemented
import mcmc
import seams
import ssmsim
import svgdsim
import zoo
from engine import fingerprint
from world import check, key_of, pot
from zoo import GKU, GKT, GKA, LinABC
from mocat.src.abc.scenarios.gk import GKOnlyATransformedUniformPrior as GKAT

TOYS = ["gauss", "gauss", "gauss", "mix", "mix", "rast", "banana", "gauss2d", "mix2d", "well"]
ABCK = ["lin", "lin", "lin", "gk", "gkt", "gka", "gkat", "lv", "sir", "ricker", "user"]
SSMK = ["lg", "lg", "nlg", "nlg", "sv", "nl1d", "user", "lorenz63", "lorenz96"]
POTS = ["gauss", "quartic", "cos", "corr"]


# ------------------------------------------------------------------ encoded settings
def r2(rng, a, b):
    return round(rng.uniform(a, b), 2)


def vec(rng, d, a=-1.5, b=1.5):
    return ["a", [r2(rng, a, b) for _ in range(d)]]


def mat(rng, k, d):
    return ["a", [[r2(rng, -1., 1.2) for _ in range(d)] for _ in range(k)]]


def spd(rng, d, diag=None):
    diag = rng.random() < 0.5 if diag is None else diag
    a = np.diag([r2(rng, 0.3, 2.) for _ in range(d)])
    if not diag:
        b = np.array([[r2(rng, -0.6, 0.6) for _ in range(d)] for _ in range(d)])
        a = np.round(a + b @ b.T, 4)
    return ["a", a.tolist()]


def genpot(rng):
    return ["pot", rng.choice(POTS), [r2(rng, 0.3, 1.5), r2(rng, -1, 1)]]


def gencorr(rng, plain=True):
    k = rng.choice((["none"] if plain else []) + ["met", "met", "rm", "rm", "rm"])
    return ["corr", k, {} if k != "rm" else {"adapt_cut_off": rng.choice([1, 3, 100]), "rm_stepsize_scale": r2(rng, 0.3, 2.),
                                             "rm_stepsize_neg_exponent": rng.choice([0.5, 0.667, 1.]), "log_update": rng.random() < 0.8}]


def geninner(rng):
    k = rng.choice(["rw", "rw", "ud"])
    return ["inner", k, {"stepsize": r2(rng, 0.05, 0.5)} if k == "rw" else {"stepsize": r2(rng, 0.05, 0.3), "leapfrog_steps": rng.choice([1, 2]), "friction": 1.}]


def gensched(rng, hi=1., k=3):
    s = sorted({round(rng.uniform(0.03, hi), 3) for _ in range(rng.randint(1, k))})
    return ["a", ([0.] if rng.random() < 0.3 else []) + s]


def genkernel(rng):
    k = rng.choice(["gauss", "gauss", "imq"])
    return ["kernel", k, {"bandwidth": r2(rng, 0.4, 2.)} if k == "gauss" else {"bandwidth": r2(rng, 0.4, 2.), "c": r2(rng, 0.5, 1.5), "beta": rng.choice([-0.5, -0.3])}]


def decode(v):
    t = v[0]
    if t == "f":
        return float(v[1])
    if t == "i":
        return int(v[1])
    if t == "b":
        return bool(v[1])
    if t == "none":
        return None
    if t == "inf":
        return jnp.inf
    if t == "a":
        return jnp.asarray(v[1], jnp.float32)
    if t == "ai":
        return jnp.asarray(v[1], jnp.int32)
    if t == "live":         # a value read back from the object after a run
        return v[1]
    if t == "pot":
        kind, par = v[1], tuple(v[2])
        return lambda x, random_key=None: pot(kind, jnp, x, par)
    if t == "psamp":
        d, s = v[1], v[2]
        return lambda random_key: s * random.normal(random_key, (d,))
    if t == "lsim":
        m, s = np.asarray(v[1], np.float32), v[2]
        return lambda x, random_key: m @ x + s * random.normal(random_key, (len(m),))
    if t == "dist":
        w = v[1]
        return lambda y: w * jnp.abs(y).sum()
    if t == "summ":
        inds = jnp.asarray(v[1])
        return lambda d: jnp.sort(d)[inds]
    if t == "corr":
        return {"none": mocat.Uncorrected, "met": mocat.Metropolis}[v[1]] if v[1] != "rm" else mocat.RMMetropolis(**v[2])
    if t == "step":
        return (lambda i: 0.4 * i ** -0.5) if v[1] == "decay" else (lambda i: 0.1 + 0.02 * i)
    if t == "kernel":
        return {"gauss": kernels.Gaussian, "imq": kernels.IMQ}[v[1]](**v[2])
    if t == "opt":
        return getattr(optimizers, v[1])
    if t == "inner":
        return mcmc.KINDS[v[1]](**v[2])
    if t == "innerabc":
        return mocat.abc.RandomWalkABC(**v[1])
    if t == "rule":
        s = v[1]
        return lambda state, extra: s * jnp.asarray(extra.iter, jnp.float32)
    if t == "estd":
        s = v[1]
        return lambda vals: s * jnp.std(vals, axis=0)
    if t == "ipot":
        s = v[1]
        return lambda x, t: s * jnp.sum(x ** 2)
    if t == "tpot":
        s, b = v[1], v[2]
        return lambda x_previous, t_previous, x_new, t_new: s * jnp.sum((x_new - b * x_previous) ** 2)
    if t == "lpot":
        s, b = v[1], v[2]
        return lambda x, y, t: s * jnp.sum((y - b * jnp.sum(x)) ** 2)
    if t == "tsamp":
        s, b = v[1], v[2]
        return lambda x_previous, t_previous, t_new, random_key: b * x_previous + s * random.normal(random_key, x_previous.shape)
    raise KeyError(t)


# ------------------------------------------------------------------ generation
def toy(rng, kind):
    """(fixed, settings, generators)"""
    d = rng.choice([1, 1, 2, 3]) if kind in ("gauss", "rast", "well") else rng.choice([1, 2]) if kind == "mix" else 2
    g = {"scen.temperature": lambda: ["f", r2(rng, 0.2, 2.)], "scen.prior_potential": lambda: genpot(rng),
         "scen.likelihood_potential": lambda: genpot(rng), "scen.potential": lambda: genpot(rng),
         "scen.prior_sample": lambda: ["psamp", d, r2(rng, 0.3, 2.)]}
    fixed = {"kind": kind, "dim": d}
    heavy = []
    S = {"scen.prior_sample": ["psamp", d, 1.]}
    if kind in ("gauss", "gauss2d"):
        g["scen.mean"] = lambda: vec(rng, d)
        g["scen.covariance"] = lambda: spd(rng, d) if rng.random() < 0.5 and d > 1 or kind == "gauss2d" else vec(rng, d, 0.3, 2.)
        S["scen.mean"], S["scen.covariance"] = g["scen.mean"](), g["scen.covariance"]()
        heavy = ["scen.mean", "scen.covariance"]
    elif kind in ("mix", "mix2d"):
        K = rng.choice([2, 3])
        fixed["K"] = K
        g["scen.means"] = lambda: ["a", [[r2(rng, -2, 2) for _ in range(d)] for _ in range(K)]]
        g["scen.covariances"] = lambda: (["a", [spd(rng, d)[1] for _ in range(K)]] if rng.random() < 0.6 else spd(rng, d) if rng.random() < 0.6 else ["none"])

        def weights():
            w = [rng.uniform(0.2, 1.) for _ in range(K)]
            return ["a", [round(x / sum(w), 4) for x in w]]
        g["scen.weights"] = weights
        S["scen.means"] = g["scen.means"]()
        S["scen.covariances"], S["scen.weights"] = ["none"], weights()
        heavy = ["scen.means", "scen.covariances", "scen.weights"]
    elif kind == "rast":
        g["scen.a"] = lambda: ["f", r2(rng, 0.2, 2.)]
        S["scen.a"] = ["f", 1.]
        heavy = ["scen.a"]
    elif kind == "banana":
        g["scen.curviness"] = lambda: ["f", r2(rng, 0.01, 0.3)]
        g["scen.lengthiness"] = lambda: ["f", r2(rng, 2., 60.)]
        heavy = ["scen.curviness", "scen.lengthiness"]
    return fixed, S, g, heavy


def abcs(rng, kind):
    heavy = []
    if kind == "lin":
        d, k = rng.choice([1, 2, 3]), [rng.choice([1, 2, 3])]
        g = {"scen.prior_mean": lambda: vec(rng, d), "scen.prior_covariance": lambda: spd(rng, d), "scen.data": lambda: vec(rng, k[0]),
             "scen.likelihood_matrix": lambda: mat(rng, k[0], d), "scen.likelihood_covariance": lambda: spd(rng, k[0]),
             "scen.temperature": lambda: ["f", r2(rng, 0.2, 2.)], "scen.prior_potential": lambda: genpot(rng),
             "scen.distance_function": lambda: ["dist", r2(rng, 0.5, 2.)]}
        S = {n: g[n]() for n in ("scen.prior_mean", "scen.prior_covariance", "scen.data", "scen.likelihood_matrix", "scen.likelihood_covariance")}
        heavy = list(S)

        def obs():
            j = k[0] = rng.choice([1, 2, 3])
            return {"scen.likelihood_matrix": mat(rng, j, d), "scen.likelihood_covariance": spd(rng, j), "scen.data": vec(rng, j)}
        return {"kind": kind, "dim": d}, S, g, heavy, obs
    if kind in ("gk", "gkt", "gka", "gkat"):
        d = 4 if kind in ("gk", "gkt") else 1
        nd = 10
        g = {"scen.prior_mins": lambda: ["f", r2(rng, 0., 0.8)] if rng.random() < 0.5 else vec(rng, d, 0., 0.8),
             "scen.prior_maxs": lambda: ["f", r2(rng, 1., 6.)] if rng.random() < 0.5 else vec(rng, d, 1., 6.), "scen.c": lambda: ["f", r2(rng, 0.3, 0.9)],
             "scen.n_unsummarised_data": lambda: ["i", rng.choice([8, 10, 14])], "scen.data": lambda: vec(rng, 3, 0., 5.),
             "scen.buffer": lambda: ["f", rng.choice([1e-5, 1e-3, 0.05])], "scen.summarise_data": lambda: ["summ", sorted(rng.sample(range(8), 3))]}
        if d == 1:
            for b in ("B", "g", "k"):
                g["scen." + b] = lambda: ["f", r2(rng, 0.3, 2.)]
        S = {"scen.n_unsummarised_data": ["i", nd], "scen.data": vec(rng, 3, 0., 5.), "scen.summarise_data": ["summ", [1, 4, 6]]}
        return {"kind": kind, "dim": d}, S, g, [n for n in g if n != "scen.summarise_data"], None
    if kind in ("lv", "sir"):
        tr = rng.random() < 0.5
        g = {"scen.prior_rates": lambda: vec(rng, 3 if kind == "lv" else 2, 0.3, 2.), "scen.max_iter": lambda: ["i", rng.choice([3, 6, 10])]}
        if kind == "lv":
            g["scen.times"] = lambda: ["a", [0., r2(rng, 0.1, 0.3), r2(rng, 0.4, 1.)]]
            g["scen.initial_prey_pred"] = lambda: ["ai", [rng.randint(2, 8), rng.randint(2, 8)]]
            g["scen.data"] = lambda: vec(rng, 2, 1., 8.)
        else:
            g["scen.initial_si"] = lambda: ["ai", [rng.randint(3, 10), rng.randint(1, 3)]]
        S = {n: f() for n, f in g.items()}
        return {"kind": kind, "transformed": tr, "dim": 3 if kind == "lv" else 2}, S, g, list(S), None
    if kind == "ricker":
        g = {"scen.initial_n": lambda: ["i", rng.randint(1, 4)], "scen.num_steps": lambda: ["i", rng.randint(3, 6)],
             "scen.observation_inds": lambda: ["ai", sorted(rng.sample(range(3), 2))]}
        return {"kind": kind, "dim": 3}, {n: f() for n, f in g.items()}, g, list(g), None
    d, k = rng.choice([1, 2]), rng.choice([1, 2])
    g = {"scen.likelihood_sample": lambda: ["lsim", mat(rng, k, d)[1], r2(rng, 0.2, 1.)], "scen.prior_sample": lambda: ["psamp", d, r2(rng, 0.3, 2.)],
         "scen.prior_potential": lambda: genpot(rng), "scen.data": lambda: vec(rng, k), "scen.distance_function": lambda: ["dist", r2(rng, 0.5, 2.)]}
    return {"kind": kind, "dim": d}, {n: g[n]() for n in ("scen.likelihood_sample", "scen.prior_sample", "scen.prior_potential", "scen.data")}, g, list(g), None


def toy_sampler(rng, alg):
    g = {}
    if alg in ("rw", "ud", "qn"):
        g["par.stepsize"] = lambda: ["f", r2(rng, 0.05, 0.6)]
        g["samp.correction"] = lambda: gencorr(rng)
        g["tuning.target"] = lambda: ["f", r2(rng, 0.2, 0.8)]
        g["tuning.monotonicity"] = lambda: ["s", rng.choice(["increasing", "decreasing"])]
        g["corr.rm_stepsize_scale"] = lambda: ["f", r2(rng, 0.3, 2.)]
        g["corr.adapt_cut_off"] = lambda: ["i", rng.choice([1, 3, 100])]
        g["corr.log_update"] = lambda: ["b", rng.random() < 0.5]
        g["corr.super_correction"] = lambda: ["scorr", "met"]
        S = {"par.stepsize": g["par.stepsize"](), "samp.correction": gencorr(rng)}
        if alg != "rw":
            g["par.leapfrog_steps"] = lambda: ["i", rng.choice([1, 2, 3])]
            g["par.friction"] = lambda: rng.choice([["f", 1.], ["f", 0.3], ["inf"]])
            S["par.leapfrog_steps"], S["par.friction"] = ["i", 1], ["f", 1.]
        if alg == "qn":
            g["par.init_hessian_sqrt_diag"] = lambda: ["f", r2(rng, 0.5, 2.)]
            g["par.pos_def_r"] = lambda: ["f", r2(rng, 0.3, 0.9)]
            g["par.m"] = lambda: ["i", rng.choice([2, 3])]
            g["samp.sort_bfgs"] = lambda: ["b", rng.random() < 0.5]
            S["par.m"] = ["i", 3]
        return {"alg": alg}, S, g
    if alg in ("smc", "rmsmc"):
        g = {"samp.temperature_schedule": lambda: gensched(rng) if rng.random() < 0.6 else ["none"], "samp.max_temperature": lambda: ["f", r2(rng, 0.3, 1.5)],
             "samp.max_iter": lambda: ["i", rng.randint(1, 4)], "par.ess_threshold_retain": lambda: ["f", rng.choice([0.7, 0.8, 0.9])],
             "par.ess_threshold_resample": lambda: ["f", rng.choice([0.3, 0.5, 1.])], "par.mcmc_steps": lambda: ["i", rng.choice([1, 2])],
             "par.bisection_tol": lambda: ["f", rng.choice([1e-5, 1e-2])], "par.max_bisection_iter": lambda: ["i", rng.choice([5, 300])],
             "samp.mcmc_sampler": lambda: geninner(rng), "inner.par.stepsize": lambda: ["f", r2(rng, 0.05, 0.5)],
             "inner.samp.correction": lambda: gencorr(rng, False)}
        S = {"samp.mcmc_sampler": geninner(rng), "samp.temperature_schedule": g["samp.temperature_schedule"](), "par.max_bisection_iter": ["i", 300],
             "par.ess_threshold_retain": ["f", 0.8], "samp.max_iter": ["i", 3]}
        if alg == "rmsmc":
            g["par.rm_stepsize"] = lambda: ["f", r2(rng, 0.3, 2.)]
        else:
            S["par.rm_stepsize"] = None
            del S["par.rm_stepsize"]
        return {"alg": alg}, S, g
    k0 = rng.choice(["default", "default", "given"])
    g = {"par.stepsize": lambda: ["f", r2(rng, 0.05, 0.5)] if rng.random() < 0.6 else ["step", rng.choice(["decay", "grow"])],
         "samp.max_iter": lambda: ["i", rng.randint(1, 4)], "par.ensemble_batchsize": lambda: ["i", rng.choice([1, 2, 3])] if rng.random() < 0.7 else ["none"],
         "samp.kernel": lambda: genkernel(rng), "par.kernel_params.bandwidth": lambda: ["f", r2(rng, 0.4, 2.)],
         "samp.optimiser": lambda: ["opt", rng.choice(["sgd", "adam", "adagrad"])]}
    S = {"par.stepsize": ["f", 0.2], "samp.max_iter": ["i", 2], "par.ensemble_batchsize": ["none"]}
    if k0 == "given":
        S["samp.kernel"] = genkernel(rng)
    return {"alg": "svgd", "kernel0": k0}, S, g


def abc_sampler(rng, alg, lin):
    ty = 6. if lin else 20.
    if alg == "vanilla":
        g = {"par.threshold": lambda: ["f", r2(rng, 0.5, ty)], "par.acceptance_rate": lambda: ["f", r2(rng, 0.2, 0.8)] if rng.random() < 0.6 else ["none"]}
        return {"alg": alg}, {"par.threshold": ["f", ty], "par.acceptance_rate": g["par.acceptance_rate"]()}, g
    if alg == "rwabc":
        g = {"par.threshold": lambda: ["f", r2(rng, 0.5, ty)], "par.stepsize": lambda: ["f", r2(rng, 0.05, 0.6)], "samp.correction": lambda: gencorr(rng),
             "tuning.target": lambda: ["f", r2(rng, 0.1, 0.6)], "tuning.parameter": lambda: ["s", rng.choice(["threshold", "stepsize"])],
             "corr.rm_stepsize_scale": lambda: ["f", r2(rng, 0.3, 2.)]}
        return {"alg": alg}, {"par.threshold": ["f", ty], "par.stepsize": ["f", 0.3], "samp.correction": gencorr(rng)}, g
    if alg == "abcsmc":
        g = {"samp.threshold_schedule": lambda: ["a", sorted((r2(rng, 1., ty) for _ in range(rng.randint(1, 3))), reverse=True)] if rng.random() < 0.6 else ["none"],
             "samp.max_iter": lambda: ["i", rng.randint(1, 3)], "par.ess_threshold_retain": lambda: ["f", rng.choice([0.6, 0.8, 0.9])],
             "par.ess_threshold_resample": lambda: ["f", rng.choice([0.3, 0.5, 0.9])], "par.mcmc_steps": lambda: ["i", rng.choice([1, 2])],
             "par.termination_alpha": lambda: ["f", rng.choice([0., 0.05, 0.3])], "inner.par.stepsize": lambda: ["f", r2(rng, 0.1, 0.6)],
             "samp.mcmc_sampler": lambda: ["innerabc", {"stepsize": r2(rng, 0.1, 0.6)}]}
        return {"alg": alg}, {"samp.mcmc_sampler": ["innerabc", {"stepsize": 0.3}], "samp.threshold_schedule": g["samp.threshold_schedule"](), "samp.max_iter": ["i", 2]}, g
    g = {"samp.temperature_schedule": lambda: gensched(rng) if rng.random() < 0.6 else ["none"], "samp.max_temperature": lambda: ["f", r2(rng, 0.1, 1.)],
         "samp.max_iter": lambda: ["i", rng.randint(1, 4)], "par.nugget": lambda: ["f", rng.choice([1e-3, 1e-2, 0.1])],
         "par.term_std": lambda: ["f", rng.choice([0., 0.3, 0.8, 0.95])], "samp.ensemble_std": lambda: ["estd", r2(rng, 0.5, 2.)] if rng.random() < 0.6 else ["none"]}
    if alg == "ateki":
        g["par.ess_threshold"] = lambda: ["f", rng.choice([0.3, 0.6, 0.9])]
        g["par.max_bisection_iter"] = lambda: ["i", rng.choice([5, 300])]
        return {"alg": alg}, {"par.nugget": ["f", 1e-3], "samp.max_iter": ["i", 3], "par.max_bisection_iter": ["i", 300], "par.ess_threshold": ["f", 0.6]}, g
    if rng.random() < 0.25:
        del g["samp.temperature_schedule"]
        g["samp.next_temperature"] = lambda: ["rule", rng.choice([0.1, 0.3, 0.5])]
        return {"alg": alg}, {"par.nugget": ["f", 1e-3], "samp.max_iter": ["i", 3], "samp.next_temperature": ["rule", 0.2]}, g
    return {"alg": alg}, {"par.nugget": ["f", 1e-3], "samp.temperature_schedule": g["samp.temperature_schedule"](), "samp.max_iter": ["i", 3]}, g


def ssms(rng, kind):
    d = {"sv": rng.choice([1, 2]), "nl1d": 1, "lorenz63": 3, "lorenz96": 4}.get(kind, rng.choice([1, 2, 3]))
    k = [{"sv": d, "nl1d": 1}.get(kind, rng.choice([1, 2, 3]))]
    fixed = {"kind": kind, "dim": d}
    obs = None
    if kind == "nl1d":
        g = {"scen." + n: (lambda: ["f", r2(rng, 0.5, 3.)]) for n in ("initial_sd", "transition_sd", "likelihood_sd")}
        S = {n: f() for n, f in g.items()}
    elif kind == "user":
        fixed["model"] = {"dim": d, "dim_obs": k[0], "seed": rng.randrange(100), "drift": 0.3, "q": 0.7, "r": 1., "init": 1., "a": 0., "noise": "gauss",
                          "sin": False, "faults": {"mode": "none"}}
        fixed["obs"] = k[0]
        g = {"scen.initial_potential": lambda: ["ipot", r2(rng, 0.3, 2.)], "scen.transition_potential": lambda: ["tpot", r2(rng, 0.3, 2.), r2(rng, 0.2, 1.)],
             "scen.likelihood_potential": lambda: ["lpot", r2(rng, 0.3, 2.), r2(rng, 0.2, 1.)], "scen.transition_sample": lambda: ["tsamp", r2(rng, 0.3, 1.), r2(rng, 0.3, 1.)]}
        S = {}
    else:
        g = {"scen.initial_mean": lambda: vec(rng, d), "scen.initial_covariance": lambda: spd(rng, d), "scen.transition_covariance": lambda: spd(rng, d)}
        if kind == "sv":
            g["scen.transition_matrix"] = lambda: mat(rng, d, d)
            g["scen.likelihood_covariance_diag"] = lambda: vec(rng, d, 0.3, 2.)
        else:
            g["scen.likelihood_covariance"] = lambda: spd(rng, k[0])
            g["scen.likelihood_matrix"] = lambda: mat(rng, k[0], d)
            if kind == "lg":
                g["scen.transition_matrix"] = lambda: mat(rng, d, d)

            def obs():
                j = k[0] = rng.choice([1, 2, 3])
                return {"scen.likelihood_matrix": mat(rng, j, d), "scen.likelihood_covariance": spd(rng, j)}
        S = {n: f() for n, f in g.items()}
        if kind == "lorenz63":
            for n, v in (("sigma", 10.), ("rho", 28.), ("beta", 2.667)):
                g["scen." + n] = lambda v=v: ["f", round(v * rng.uniform(0.7, 1.3), 2)]
        if kind == "lorenz96":
            g["scen.forcing_constant"] = lambda: ["f", r2(rng, 5., 9.)]
    return fixed, S, g, list(g), obs


def gen_light(prop, rng, tier):
    """Long histories of sampler settings without runs: what the settings in force say must be that of a fresh sampler."""
    if rng.random() < 0.6:
        kind, fam = rng.choice(TOYS), "toy"
        fixed, S, _, _ = toy(rng, kind)
        f2, S2, g2 = toy_sampler(rng, rng.choice(["smc", "smc", "smc", "rmsmc", "svgd", "rw", "ud", "qn"]))
    else:
        kind, fam = rng.choice([k for k in ABCK if k not in ("sir", "ricker")]), "abc"
        fixed, S, _, _, _ = abcs(rng, kind)
        f2, S2, g2 = abc_sampler(rng, rng.choice(["abcsmc", "abcsmc", "teki", "teki", "ateki", "vanilla", "rwabc"]), kind in ("lin", "user"))
    fixed.update(f2)
    c = {"prop": prop, "fam": fam, "light": True, "fixed": fixed, "init": {**S, **S2}, "compiled": False, "freshkw": False, "n": 1, "key": 0, "ops": []}
    sched = [k for k in g2 if k.endswith("_schedule")]
    for _ in range(rng.randint(4, 14 if tier != "thorough" else 30)):
        nm = rng.choice(sched if sched and rng.random() < 0.45 else list(g2))
        v = g2[nm]()
        if nm in sched and v[0] == "a" and rng.random() < 0.6:
            r = rng.uniform(0.2, 1.)
            v = ["a", [round(v[1][-1] * r ** k, 4) for k in range(rng.randint(1, 7))]]
            if nm == "samp.temperature_schedule":
                v[1].reverse()
        c["ops"].append({"op": "set", "name": nm, "val": v})
    return c


def gen(prop, rng, i, tier):
    if i % 2:
        return gen_light(prop, rng, tier)
    i //= 2
    fam = ["toy", "abc", "toy", "ssm"][i % 4]
    obs, heavy = None, []
    n0 = 1
    if fam == "toy":
        kind = rng.choice(TOYS)
        fixed, S, g, heavy = toy(rng, kind)
        alg = rng.choice(["rw", "rw", "ud", "ud", "qn", "smc", "smc", "rmsmc", "svgd", "svgd"])
        f2, S2, g2 = toy_sampler(rng, alg)
        compiled = rng.random() < (0.55 if alg in ("ud", "qn") else 0.15)
        if alg in ("smc", "rmsmc", "svgd"):
            n0 = 3
    elif fam == "abc":
        kind = rng.choice(ABCK)
        fixed, S, g, heavy, obs = abcs(rng, kind)
        alg = "none" if kind in ("sir", "ricker") else rng.choice(["vanilla", "rwabc", "abcsmc", "abcsmc", "teki", "teki", "ateki"])
        f2, S2, g2 = abc_sampler(rng, alg, kind in ("lin", "user")) if alg != "none" else ({"alg": "none"}, {}, {})
        compiled = rng.random() < 0.15
        if alg in ("abcsmc", "teki", "ateki"):
            n0 = 4
    else:
        kind = rng.choice(SSMK)
        fixed, S, g, heavy, obs = ssms(rng, kind)
        alg = rng.choice({"lg": ["boot", "boot", "kalman", "ffbsi", "lag", "simulate"], "nlg": ["boot", "optimal", "optimal", "enkf", "ffbsi", "lag", "simulate"],
                          "user": ["boot", "ffbsi", "lag"], "lorenz63": ["none"], "lorenz96": ["none"]}.get(kind, ["boot", "ffbsi", "lag", "simulate"]))
        f2, S2, g2 = {"alg": alg, "T": rng.choice([2, 3]), "maxrej": rng.choice([0, 3]), "lag": 1, "bs": rng.random() < 0.5}, {}, {}
        if kind == "nlg":
            f2["alg"] = alg
        compiled = rng.random() < 0.75
        n0 = 3
    fixed.update(f2)
    c = {"prop": prop, "fam": fam, "fixed": fixed, "init": {**S, **S2}, "compiled": compiled, "freshkw": rng.random() < 0.5,
         "n": rng.randint(n0, n0 + 2), "key": rng.randrange(1 << 30), "ops": []}
    gens = {**g, **g2}
    k = rng.randint(2, 7) if tier != "thorough" else rng.randint(2, 12)
    runs = 0
    names, mine = list(gens), list(g2) or list(g)
    for j in range(k):
        r = rng.random()
        if j == 0:          # something must have been used before the change
            r = rng.choice([0.7, 0.85])
        if r < 0.6:
            if obs is not None and rng.random() < 0.2:
                c["ops"].append({"op": "group", "sets": list(obs().items())})
                if rng.random() < 0.5:
                    rng.shuffle(c["ops"][-1]["sets"])
                continue
            nm = rng.choice(heavy if heavy and rng.random() < 0.5 else mine if rng.random() < 0.5 else names)
            c["ops"].append({"op": "set", "name": nm, "val": gens[nm]()})
        elif r < 0.8 or (compiled and runs >= 1):
            c["ops"].append({"op": "eval"})
        else:
            runs += 1
            op = {"op": "run", "n": rng.randint(n0, n0 + 2), "key": rng.randrange(1 << 30), "fail": None, "kw": {}}
            if not compiled and rng.random() < 0.3:
                op["fail"] = rng.choice([1, 3, 10, 30, 60, 150])
            elif fam != "ssm" and rng.random() < 0.25:
                nm = rng.choice([x for x in g2 if x.startswith("par.") and x.count(".") == 1 or x in ("samp.temperature_schedule", "samp.threshold_schedule", "samp.correction")] or [None])
                if nm:
                    op["kw"] = {nm: gens[nm]()}
            c["ops"].append(op)
    if not any(o["op"] in ("set", "group") for o in c["ops"]):
        nm = rng.choice(heavy or names)
        c["ops"].append({"op": "set", "name": nm, "val": gens[nm]()})
    if not any(o["op"] == "run" for o in c["ops"]) and rng.random() < (0.8 if compiled else 0.4):
        c["ops"].insert(0, {"op": "run", "n": c["n"] if compiled else rng.randint(n0, n0 + 2), "key": rng.randrange(1 << 30), "fail": None, "kw": {}})
    return c


def shrinks(case):
    for k in range(len(case["ops"])):
        c = copy.deepcopy(case)
        del c["ops"][k]
        yield c
    for k, op in enumerate(case["ops"]):
        if op["op"] == "group":
            continue
        for f, v in (("fail", None), ("kw", {})):
            if op.get(f):
                c = copy.deepcopy(case)
                c["ops"][k][f] = v
                yield c
    if case["compiled"]:
        yield dict(case, compiled=False)
    if case["freshkw"]:
        yield dict(case, freshkw=False)


# ------------------------------------------------------------------ objects
class Ob:
    def __init__(self, scen, sampler=None):
        self.scen, self.sampler = scen, sampler


class PlainABC(mocat.abc.ABCScenario):
    name = "plain"

    def __init__(self, dim):
        self.dim = dim
        super().__init__()


LATE = ("scen.temperature", "scen.prior_potential", "scen.likelihood_potential", "scen.distance_function", "scen.prior_sample", "scen.summarise_data")


def make_scen(case, S):
    fx, kind = case["fixed"], case["fixed"]["kind"]
    v = {k[5:]: decode(x) for k, x in S.items() if k.startswith("scen.")}
    late = {}
    kw = {}
    for k in ("temperature", "prior_potential", "likelihood_potential", "distance_function", "prior_sample", "summarise_data"):
        if k in v:
            if case["freshkw"] and k in ("prior_potential", "likelihood_potential") and kind in ("gauss", "mix", "rast", "well"):
                kw[k] = v.pop(k)
            else:
                late[k] = v.pop(k)
    if kind == "gauss":
        s = mocat.scenarios.Gaussian(**v, **kw)
    elif kind == "gauss2d":
        s = mocat.twodim.Gaussian(**v)
    elif kind == "mix":
        s = mocat.scenarios.GaussianMixture(**v, **kw)
    elif kind == "mix2d":
        s = mocat.twodim.GaussianMixture(**v)
    elif kind == "rast":
        s = mocat.scenarios.Rastrigin(dim=fx["dim"], **v, **kw)
    elif kind == "well":
        s = mocat.scenarios.DoubleWell(dim=fx["dim"], **kw)
    elif kind == "banana":
        s, late = mocat.twodim.Banana(), {**v, **late}
    elif kind == "lin":
        s = LinABC(**v)
    elif kind in ("gk", "gkt", "gka", "gkat"):
        s, late = {"gk": GKU, "gkt": GKT, "gka": GKA, "gkat": GKAT}[kind](), {**v, **late}
    elif kind == "lv":
        s = (abc_scen.TransformedLotkaVolterra if fx["transformed"] else abc_scen.LotkaVolterra)(**v)
    elif kind == "sir":
        s = (abc_scen.TransformedSIR if fx["transformed"] else abc_scen.SIR)(**v)
    elif kind == "ricker":
        s = abc_scen.Ricker(**v)
    elif case["fam"] == "abc":
        s, late = PlainABC(fx["dim"]), {**v, **late}
    elif kind == "lg":
        s = ssm.TimeHomogenousLinearGaussian(**v)
    elif kind == "nlg":
        s = SineModel(**v)
    elif kind == "sv":
        s = ssm.scenarios.StochasticVolatility(dim=fx["dim"], **v)
    elif kind == "nl1d":
        s = ssm.scenarios.NonLinear1DBenchmark(**v)
    elif kind == "lorenz63":
        s = ssm.scenarios.Lorenz63(**v)
    elif kind == "lorenz96":
        s = ssm.scenarios.Lorenz96(dim=fx["dim"], **v)
    else:
        s, late = ssmsim.SimSSM(dict(fx["model"])), {**v, **late}
    for k, x in late.items():
        setattr(s, k, x)
    return s


class SineModel(ssm.NonLinearGaussian):
    name = "sine drift"

    def transition_function(self, x_previous, t_previous, t_new):
        return x_previous + 0.3 * jnp.sin(x_previous) * (t_new - t_previous)


def special(t, v):
    if v[0] == "s":
        return v[1]
    if v[0] == "scorr":
        return {"none": mocat.Uncorrected, "met": mocat.Metropolis}[v[1]]()
    return decode(v)


def make_sampler(case, S):
    """Built fresh: through the constructor where it takes the setting, else assigned once."""
    fx, alg = case["fixed"], case["fixed"]["alg"]
    if case["fam"] == "ssm" or alg == "none":
        return {"optimal": ssm.OptimalNonLinearGaussianParticleFilter, "enkf": ssm.EnsembleKalmanFilter}.get(alg, ssm.BootstrapFilter)() if alg != "none" else None
    par = {k[4:]: special(k, v) for k, v in S.items() if k.startswith("par.") and k.count(".") == 1}
    samp = {k[5:]: special(k, v) for k, v in S.items() if k.startswith("samp.")}
    if alg in ("rw", "ud", "qn"):
        s = mcmc.KINDS[alg](**{k: v for k, v in par.items()})
    elif alg in ("smc", "rmsmc"):
        cls = mocat.MetropolisedSMCSampler if alg == "smc" else mocat.RMMetropolisedSMCSampler
        inner = samp.pop("mcmc_sampler")
        if samp.get("temperature_schedule") is not None:
            samp.pop("max_temperature", None)
        kw = {k: samp.pop(k) for k in ("temperature_schedule", "max_temperature") if k in samp}
        s = cls(inner, **kw, **par)
    elif alg == "svgd":
        kw = {}
        if fx["kernel0"] == "given":
            kw["kernel"] = samp.pop("kernel")
        if "optimiser" in samp:
            kw["optimiser"] = samp.pop("optimiser")
        s = mocat.SVGD(**kw, **par)
    elif alg == "vanilla":
        s = mocat.abc.VanillaABC(**par)
    elif alg == "rwabc":
        s = mocat.abc.RandomWalkABC(**par)
    elif alg == "abcsmc":
        inner = samp.pop("mcmc_sampler")
        s = mocat.abc.MetropolisedABCSMCSampler(inner, threshold_schedule=samp.pop("threshold_schedule", None), **par)
    else:
        if samp.get("temperature_schedule") is not None:
            samp.pop("max_temperature", None)
        kw = {k: samp.pop(k) for k in ("temperature_schedule", "max_temperature", "next_temperature") if k in samp and (k != "temperature_schedule" or alg == "teki")}
        s = (mocat.TemperedEKI if alg == "teki" else mocat.AdaptiveTemperedEKI)(**kw, **par)
    for k, v in samp.items():
        if k in ("temperature_schedule", "threshold_schedule") and v is None:
            continue
        if k != "max_iter":
            setattr(s, k, v)
    if "max_iter" in samp:
        s.max_iter = samp["max_iter"]
    for k, v in S.items():
        if k.split(".")[0] in ("tuning", "corr", "inner") or k.startswith("par.kernel_params"):
            put(s, k, special(k, v))
    return s


def put(s, name, v):
    parts = name.split(".")
    if parts[0] == "inner":
        return put(s.mcmc_sampler, ".".join(parts[1:]), v)
    if parts[0] == "samp":
        setattr(s, parts[1], v)
    elif parts[0] == "tuning":
        setattr(s.tuning, parts[1], v)
    elif parts[0] == "corr":
        if isinstance(s.correction, mocat.RMMetropolis):
            setattr(s.correction, parts[1], v)
    elif parts[1] == "kernel_params":
        setattr(s.parameters.kernel_params, parts[2], v)
    else:
        setattr(s.parameters, parts[1], v)


def build(case, S):
    return Ob(make_scen(case, S), make_sampler(case, S))


def apply(case, S, ob, name, val):
    """Changes the live object and the record of settings in force."""
    if name.startswith("corr.") and S.get("samp.correction", ["", ""])[1] != "rm":
        return False
    if name == "samp.max_temperature" and S.get("samp.temperature_schedule", ["none"])[0] != "none":
        return False        # the schedule in force has the last word
    v = special(name, val)
    if name.startswith("scen."):
        setattr(ob.scen, name[5:], v)
    else:
        put(ob.sampler, name, v)
    effect(S, name, val)
    if case.get("light") and name.endswith("_schedule") and val[0] == "none":
        return True
    if name in ("samp.temperature_schedule",) and val[0] == "none":
        ob.sampler.max_temperature = 0.8    # what remains of the removed schedule's end is not judged
        S["samp.max_temperature"] = ["f", 0.8]
    if name in ("samp.temperature_schedule", "samp.threshold_schedule") and val[0] == "none":
        ob.sampler.max_iter = 3
        S["samp.max_iter"] = ["i", 3]
    return True


def effect(S, name, val):
    """What the documented meaning of a change leaves in force."""
    if name == "scen.potential":
        S["scen.likelihood_potential"] = val
        S["scen.prior_potential"] = ["pot", "flat", [1., 0.]]
        return
    if name in ("samp.temperature_schedule", "samp.threshold_schedule"):
        S.pop("samp.max_iter", None)
        S.pop("samp.max_temperature", None)
    if name == "samp.mcmc_sampler":
        for k in [k for k in S if k.startswith("inner.")]:
            del S[k]
    if name == "samp.correction":
        for k in [k for k in S if k.startswith("corr.")]:
            del S[k]
    if name == "samp.kernel":
        S.pop("par.kernel_params.bandwidth", None)
    S[name] = copy.deepcopy(val)


# ------------------------------------------------------------------ observations
def arr(v):
    if isinstance(v, (tuple, list)):
        return {str(i): arr(x) for i, x in enumerate(v)}
    return np.asarray(v)


def evaluate(case, ob):
    """Every evaluation a user can make of the object, through the real compiler."""
    scen, out = ob.scen, {}
    k = random.PRNGKey(11)
    if case["fam"] == "ssm":
        return evaluate_ssm(case, scen)
    r = np.random.default_rng(3)
    x = jnp.asarray(r.normal(size=case["fixed"]["dim"]) * 0.6 + 0.2, jnp.float32)
    if case["fixed"]["kind"] in ("gk", "gka"):
        x = jnp.abs(x) + 0.7
    if case["fixed"]["kind"] in ("lv", "sir") and not case["fixed"]["transformed"]:
        x = jnp.abs(x) + 0.2
    if case["fixed"]["kind"] == "ricker":
        x = jnp.array([3., 0.3, 2.])
    calls = {nm: (x, k) for nm in ("prior_potential", "likelihood_potential", "potential", "grad_potential", "potential_and_grad", "grad_prior_potential",
                                   "grad_likelihood_potential", "prior_potential_and_grad", "likelihood_potential_and_grad", "likelihood_sample")}
    calls.update({nm: (x, 0.3, k) for nm in ("tempered_potential", "grad_tempered_potential", "tempered_potential_and_grad")})
    calls.update(prior_sample=(k,), constrain=(x,), full_data_sample=(x, k), dens=(x,), component_dens=(x, 0), component_potential=(x, 1),
                 component_potentials=(x, jnp.arange(2)))
    if case["fixed"]["kind"] in ("lin", "user", "lv") and hasattr(scen, "data"):
        calls["distance_function"] = (scen.data + 0.5,)
    for nm, args in calls.items():
        f = getattr(scen, nm, None)
        if f is None or is_implemented(f) is False or (case["fam"] == "abc" and ("grad" in nm or nm == "tempered_potential") and case["fixed"]["kind"] != "lin"):
            continue
        if nm == "component_dens" and not hasattr(scen, "weights"):
            continue
        try:
            out[nm] = arr(f(*args))
        except (AttributeError, TypeError, NotImplementedError) as e:
            if case["fam"] == "abc":
                out[nm] = "unavailable"
                continue
            raise
    out["dim_obs"] = getattr(scen, "dim_obs", None)
    parts = [out.get(nm) for nm in ("potential", "tempered_potential", "prior_potential", "likelihood_potential")]
    if all(isinstance(v, np.ndarray) for v in parts) and hasattr(scen, "temperature"):
        T = float(scen.temperature)
        p, l = out["prior_potential"], out["likelihood_potential"]
        same_value(out["potential"], p + T * l, "potential", "prior + temperature x likelihood")
        same_value(out["tempered_potential"], p + 0.3 * l, "tempered_potential(0.3)", "prior + 0.3 x likelihood")
        if "grad_potential" in out:
            gp, gl = out["grad_prior_potential"], out["grad_likelihood_potential"]
            same_value(out["grad_potential"], gp + T * gl, "grad_potential", "the gradients of prior and likelihood")
            same_value(out["grad_potential"], jax.grad(lambda z: scen.potential(z, k))(x), "grad_potential", "the derivative of potential")
            same_value(out["grad_tempered_potential"], gp + 0.3 * gl, "grad_tempered_potential(0.3)", "the gradients of prior and likelihood")
            for nm, a, b in (("potential_and_grad", "potential", "grad_potential"), ("prior_potential_and_grad", "prior_potential", "grad_prior_potential"),
                             ("likelihood_potential_and_grad", "likelihood_potential", "grad_likelihood_potential"),
                             ("tempered_potential_and_grad", "tempered_potential", "grad_tempered_potential")):
                same_value(out[nm]["0"], out[a], nm, a)
                same_value(out[nm]["1"], out[b], nm, b)
    return out


def same_value(a, b, what, other):
    check(near(np.asarray(a, float), np.asarray(b, float)), "disagree", "%s %s is not that of %s %s", what, a, other, b)


def evaluate_ssm(case, m):
    out = {}
    k = random.PRNGKey(11)
    r = np.random.default_rng(3)
    d = case["fixed"]["dim"]
    x = jnp.asarray(r.normal(size=(3, d)), jnp.float32)
    ob = case["fixed"].get("obs") or getattr(m, "dim_obs", None) or d
    y = jnp.asarray(r.normal(size=(3, ob)), jnp.float32)
    t = jnp.array([0.1, 0.6, 1.0])
    lorenz = case["fixed"]["kind"].startswith("lorenz")
    calls = {"initial_potential": (x[0], t[0]), "transition_potential": (x[0], t[0], x[1], t[1]), "likelihood_potential": (x[0], y[0], t[0]),
             "initial_sample": (t[0], k), "transition_sample": (x[0], t[0], t[1], k), "likelihood_sample": (x[0], t[0], k),
             "transition_function": (x[0], t[0], t[1]), "grad_initial_potential": (x[0], t[0]), "grad_likelihood_potential": (x[0], y[0], t[0]),
             "initial_potential_and_grad": (x[0], t[0]), "likelihood_potential_and_grad": (x[0], y[0], t[0])}
    if not lorenz:
        calls.update({"grad_transition_potential": (x[0], t[0], x[1], t[1]), "transition_potential_and_grad": (x[0], t[0], x[1], t[1]),
                      "smoothing_potential": (x, y, t), "grad_smoothing_potential": (x, y, t)})
    for nm, args in calls.items():
        f = getattr(m, nm, None)
        if f is None:
            continue
        if case["fixed"]["kind"] == "user" and nm == "likelihood_sample":
            continue
        out[nm] = arr(f(*args))
    out["dim_obs"] = getattr(m, "dim_obs", None)
    for nm in ("initial", "likelihood") + (() if lorenz else ("transition",)):
        same_value(out[nm + "_potential_and_grad"]["0"], out[nm + "_potential"], nm + "_potential_and_grad", nm + "_potential")
    same_value(jax.grad(lambda z: m.likelihood_potential(z, y[0], t[0]))(x[0]), out["grad_likelihood_potential"], "derivative of likelihood_potential", "grad_likelihood_potential")
    return out


def perform(case, ob, n, key, kw=None):
    fx, alg = case["fixed"], case["fixed"]["alg"]
    if case["fam"] != "ssm":
        if alg == "none":
            x = jnp.array([0.5, 0.3, 0.5][:fx["dim"]]) if fx["kind"] != "ricker" else jnp.array([3., 0.3, 2.])
            if fx.get("transformed"):
                x = jnp.log(x)
            if fx["kind"] == "sir":
                t, si = ob.scen.simulate_times_and_si(x, key)
                return {"t": np.asarray(t), "si": np.asarray(si)}
            return {"y": np.asarray(ob.scen.likelihood_sample(x, key))}
        return zoo.records(mocat.run(ob.scen, ob.sampler, n, key, **(kw or {})))
    m, f = ob.scen, ob.sampler
    ts = jnp.asarray([0.1, 0.6, 1.0][:fx["T"]])
    dob = fx.get("obs") or m.dim_obs
    ys = jnp.asarray(np.random.default_rng(5).normal(size=(fx["T"], dob)), jnp.float32)
    if alg in ("boot", "optimal", "enkf"):
        return zoo.records(ssm.run_particle_filter_for_marginals(m, f, ys, ts, key, n=n, ess_threshold=0.6))
    if alg == "ffbsi":
        return zoo.records(ssm.forward_filtering_backward_simulation(m, f, ys, ts, n, key, n, 0.6, fx["maxrej"], 0., 1.01))
    if alg == "lag":
        ks = random.split(key, fx["T"])
        p = ssm.initiate_particles(m, f, n, ks[0], ys[0], ts[0])
        for j in range(1, fx["T"]):
            p = ssm.propagate_particle_smoother(m, f, p, ys[j], ts[j], ks[j], fx["lag"], fx["bs"], 0.6, fx["maxrej"], 0., 1.01)
        return zoo.records(p)
    if alg == "kalman":
        a, b = ssm.run_kalman_filter_for_marginals(m, ys, ts)[:2], ssm.run_kalman_smoother_for_marginals(m, ys, ts)[:2]
        return {"filter": arr(a), "smoother": arr(b)}
    if alg == "simulate":
        return zoo.records(m.simulate(ts, key))
    return {}


def limits(ob, case):
    s = ob.sampler
    out = {}
    if case["fam"] == "ssm" or s is None:
        return out
    if case["fixed"]["alg"] in ("smc", "rmsmc", "svgd", "teki", "ateki", "abcsmc"):
        for k in ("max_iter", "max_temperature"):
            if hasattr(s, k):
                out[k] = np.asarray(float(getattr(s, k)), np.float32)
    return out


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=2e-3, atol=2e-4 * (1 + np.max(np.abs(np.where(np.isfinite(b), b, 0.)), initial=0.)), equal_nan=True))


def differ(a, b, path=""):
    """First difference beyond rounding, or None."""
    if set(a) != set(b):
        return f"{path}fields {sorted(set(a) ^ set(b))}"
    for k in a:
        if isinstance(a[k], dict) and isinstance(b[k], dict):
            r = differ(a[k], b[k], path + k + ".")
            if r:
                return r
        elif isinstance(a[k], np.ndarray) and isinstance(b[k], np.ndarray):
            if not near(a[k], b[k]):
                return f"{path}{k}: {np.ravel(a[k])[:3]} against {np.ravel(b[k])[:3]}"
        elif isinstance(a[k], (dict, np.ndarray)) or isinstance(b[k], (dict, np.ndarray)):
            return path + k
        elif a[k] is not b[k] and not (a[k] == b[k]) and not callable(a[k]):
            return f"{path}{k}: {a[k]} against {b[k]}"
    return None


# ------------------------------------------------------------------ the run
def settings_of(s):
    """Everything a sampler's settings say."""
    out = {"max_iter": np.asarray(float(getattr(s, "max_iter", 0))), "max_temperature": np.asarray(float(getattr(s, "max_temperature", 0)))}

    def tree(v, path):
        if hasattr(v, "__dict__") and not callable(v):
            for k, x in vars(v).items():
                tree(x, path + "." + k)
        elif isinstance(v, (int, float, bool, np.ndarray, jnp.ndarray)):
            out[path] = np.asarray(v, float)
        elif v is None or isinstance(v, str):
            out[path] = repr(v)
    for nm in ("parameters", "tuning", "temperature_schedule", "threshold_schedule"):
        if hasattr(s, nm):
            tree(getattr(s, nm), nm)
    c = getattr(s, "correction", None)
    if c is not None:
        out["correction"] = c if isinstance(c, str) else getattr(c if isinstance(c, type) else type(c), "__name__")
    if hasattr(s, "mcmc_sampler"):
        out["inner"] = settings_of(s.mcmc_sampler)
    return out


def run_light(case, o):
    S = copy.deepcopy(case["init"])
    ob, other = build(case, S), build(case, S)
    was = settings_of(other.sampler)
    trail = []
    title = f"{case['fixed']['kind']} with {case['fixed']['alg']}"
    for op in case["ops"]:
        nm, val = op["name"], op["val"]
        old, explicit = S.get(nm), S.get("samp.max_iter")
        before = getattr(ob.sampler, "max_temperature", None)
        if not apply(case, S, ob, nm, val):
            continue
        trail.append("set " + nm + (" of %d" % len(val[1]) if nm.endswith("_schedule") and val[0] == "a" else ""))
        if nm.endswith("_schedule") and val[0] == "none":
            if explicit is not None:
                S["samp.max_iter"] = explicit
            if old and old[0] == "a":
                o.bump("probe:schedule removed")
                lens = {len(old[1]), len([x for x in old[1] if x != 0])}
                if explicit is not None and explicit[1] in lens:       # cannot be told from the schedule's own limit
                    ob.sampler.max_iter, S["samp.max_iter"] = 9, ["i", 9]
            if hasattr(ob.sampler, "max_temperature"):      # what remains of the removed schedule's end is not judged
                ob.sampler.max_temperature, S["samp.max_temperature"] = 0.8, ["f", 0.8]
        a, b = settings_of(ob.sampler), settings_of(build(case, S).sampler)
        d = differ(a, b)
        check(d is None, "settings-differ", "%s: after %s the sampler's settings differ from those of a fresh one in %s", title, " / ".join(trail), d)
    d = differ(settings_of(other.sampler), was)
    check(d is None, "settings-leak", "%s: after %s on one sampler, another has changed in %s", title, " / ".join(trail), d)
    o.bump("settings changed", len(trail))
    o.nontrivial = len(trail) > 0
    o.fp = fingerprint(title, trail, sorted(S.items()))


def run(case, o):
    if case.get("light"):
        return run_light(case, o)
    S = copy.deepcopy(case["init"])
    ob = build(case, S)
    trail = []
    log = []
    step = not case["compiled"]

    def compare(what):
        fr = build(case, S)
        d = differ(limits(ob, case), limits(fr, case))
        check(d is None, "limits-differ", "%s: after %s the limits are not those of fresh objects: %s", title, " / ".join(trail), d)
        a, b = evaluate(case, ob), evaluate(case, fr)
        d = differ(a, b)
        check(d is None, "evaluation-differs", "%s: after %s the object differs from a fresh one with the final settings in %s", title, " / ".join(trail), d)
        return a

    title = f"{case['fixed']['kind']} with {case['fixed']['alg']}"
    changed = 0
    for op in case["ops"]:
        if op["op"] == "set":
            if apply(case, S, ob, op["name"], op["val"]):
                trail.append("set " + op["name"])
                changed += 1
        elif op["op"] == "group":
            for nm, v in op["sets"]:
                apply(case, S, ob, nm, v)
            trail.append("set observation model")
            changed += 1
        elif op["op"] == "eval":
            compare("eval")
            trail.append("evaluation")
        else:
            kw = {k.split(".")[1]: special(k, v) for k, v in op["kw"].items()}
            with seams.Ctx(step=step) as ctx:
                ctx.interrupt_at = op["fail"]
                try:
                    perform(case, ob, op["n"], key_of(op["key"]), kw)
                    ok = True
                except seams.Interrupted:
                    ok = False
                ctx.interrupt_at = None
            o.bump("ticks", ctx.ticks)
            o.bump("probe:run between changes" if ok else "fault:interrupted run")
            trail.append(("run" if ok else "interrupted run") + (" given " + ",".join(kw) if kw else ""))
            for k, v in op["kw"].items():
                effect(S, k, v)
                changed += 1
                if k in ("samp.temperature_schedule", "samp.threshold_schedule") and v[0] == "none":
                    ob.sampler.max_iter, S["samp.max_iter"] = 3, ["i", 3]
                    if k == "samp.temperature_schedule":
                        ob.sampler.max_temperature, S["samp.max_temperature"] = 0.8, ["f", 0.8]
            if ok and case["fixed"]["alg"] in ("smc", "rmsmc"):
                S["scen.temperature"] = ["live", ob.scen.temperature]
            if ok and case["fixed"]["alg"] == "vanilla":
                S["par.threshold"] = ["live", ob.sampler.parameters.threshold]
    o.bump("settings changed", changed)
    ev = compare("the history")
    fr = build(case, S)
    rec = []
    for obj in (ob, fr):
        with seams.Ctx(step=step) as ctx:
            rec.append(perform(case, obj, case["n"], key_of(case["key"])))
        o.bump("ticks", ctx.ticks)
    d = differ(rec[0], rec[1])
    check(d is None, "run-differs", "%s: after %s a run differs from one with fresh objects in %s", title, " / ".join(trail), d)
    o.nontrivial = changed > 0
    o.fp = fingerprint(title, trail, zooless(rec[0]), zooless(ev))


def zooless(r):
    from isosim import digest
    return digest({k: v for k, v in r.items()})
