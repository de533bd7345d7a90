"""A catalogue of simulated works (sampler runs, filters, smoothers, simulators) shared by C12-C15 and C19.

A work is a JSON spec; build(spec) makes fresh objects; go(spec, objs, key) carries it out and returns the records."""
import copy
import random as pyrandom
import numpy as np
import jax.numpy as jnp
import mocat
from mocat import ssm
from mocat.abc import scenarios as abc_scen
from mocat.src.abc.scenarios.gk import GKUniformPrior as GKU, GKTransformedUniformPrior as GKT, GKOnlyAUniformPrior as GKA
from mocat.src.abc.scenarios.linear_gaussian import LinearGaussian as LinABC
import mcmc
import smc
import abcsim
import svgdsim
import tekisim
import ssmsim
from seams import concrete, current
from world import Target, ABCTarget, DrawPlan, T, key_of, snap, user_event, user_code
from jax import random

RUNS = ["rw", "ud", "qn", "smc", "rmsmc", "svgd", "teki", "ateki", "vanilla", "quantile", "imp", "rwabc", "abcsmc"]
SSMS = ["filter", "online", "back", "ffbsi", "lag", "simulate"]
SIMS = ["lv", "sir", "ricker"]
BUILTIN = ["btoy", "babc", "bssm"]
ALL = RUNS + SSMS + SIMS + BUILTIN


def gen_work(rng, fams=ALL, small=True, fam=None, draws=False, faults=True):
    fam = fam or rng.choice(fams)
    sub = pyrandom.Random(rng.randrange(1 << 40))
    if fam in ("rw", "ud", "qn"):
        for _ in range(400):
            c = mcmc.gen("C04", sub, 0, "quick")
            if c["kind"] == fam:
                break
        c["n"] = min(c["n"], 6 if small else 12)
        c["segments"] = 1
    elif fam in ("smc", "rmsmc"):
        for _ in range(400):
            c = smc.gen("C06", sub, 0, "quick")
            if c["rm"] == (fam == "rmsmc") and (c["kind"] != "qn" or not small):
                break
        c["n"] = min(c["n"], 4)
        c["smc"]["mcmc_steps"] = min(c["smc"]["mcmc_steps"], 2)
        if "schedule" in c:
            c["schedule"] = c["schedule"][:3]
        else:
            c["smc"]["max_iter"] = min(c["smc"]["max_iter"], 3)
        if c["smc"]["ess_threshold_retain"] < 0.8:
            c["smc"]["ess_threshold_retain"] = 0.8
    elif fam == "svgd":
        c = svgdsim.gen("C17", sub, 0, "quick")
        c["iters"] = min(c["iters"], 3)
        c["n"] = min(c["n"], 5)
        if c["batch"]:
            c["batch"] = min(c["batch"], c["n"])
    elif fam in ("teki", "ateki"):
        for _ in range(400):
            c = tekisim.gen("C16", sub, 0, "quick")
            if (c["mode"] == "adaptive") == (fam == "ateki"):
                break
        c["n"] = max(4, min(c["n"], 6))
        c["max_iter"] = min(c["max_iter"], 4)
        c["target"]["noise"] = c["target"]["noise"] or 0.3
    elif fam in ("vanilla", "quantile", "imp", "rwabc"):
        for _ in range(400):
            c = abcsim.gen("C07", sub, 0, "quick")
            if c["kind"] == {"rwabc": "rw"}.get(fam, fam):
                break
        c["n"] = min(c["n"], 8)
        c["target"]["noise"] = c["target"]["noise"] or 0.3
    elif fam == "abcsmc":
        c = abcsim.gen("C08", sub, 0, "quick")
        c["n"] = min(c["n"], 5)
        c["max_iter"] = min(c["max_iter"], 3)
        if "schedule" in c:
            c["schedule"] = c["schedule"][:3]
        c["target"]["noise"] = c["target"]["noise"] or 0.3
    elif fam in SSMS:
        prop = {"filter": "C20", "online": "C20", "back": "C10", "ffbsi": "C10", "lag": "C11", "simulate": "C10"}[fam]
        c = ssmsim.gen(prop, sub, 0, "quick")
        keep = 4 if fam in ("lag", "online") else 3
        c["times"], c["ys"] = c["times"][:keep], c["ys"][:keep]
        c["n"] = min(c["n"], 5)
        c.setdefault("nsamps", None)
        c.setdefault("maxrej", 0)
        c.setdefault("bound", 0.)
        c.setdefault("infl", 1.01)
        c.setdefault("full", True)
        if fam in ("back", "ffbsi", "lag", "simulate") and c["filter"] in ("optimal", "enkf"):
            c["filter"] = "boot"
        if c["model"]["faults"]["mode"] == "region":
            c["model"]["faults"]["thr"] = 0.8
    elif fam == "btoy":
        c = {"scen": sub.choice(["gauss", "corr", "mix", "well", "rastrigin", "banana"]), "alg": sub.choice(["rw", "ud", "svgd", "smc"]), "n": sub.randint(3, 5)}
    elif fam == "babc":
        c = {"scen": sub.choice(["lin", "gk", "gkt", "gka", "lv"]), "alg": sub.choice(["vanilla", "rwabc", "teki", "abcsmc"]), "n": sub.randint(4, 5)}
    elif fam == "bssm":
        c = {"scen": sub.choice(["lin", "sv", "nl1d", "nlg"]), "what": sub.choice(["simulate", "filter", "ffbsi", "lag", "lag"]), "n": sub.randint(3, 4),
             "filter": "boot", "times": [0.1, 0.6, 1.0, 1.5][:sub.randint(2, 4)], "nsamps": None, "maxrej": sub.choice([0, 3]), "bound": 0., "infl": 1.01,
             "thr": sub.choice([0.5, 1.1]), "full": True, "lag": sub.choice([1, 2]), "bs": sub.random() < 0.5, "seed": sub.randrange(100)}
        if c["scen"] in ("lin", "nlg"):
            c["filter"] = sub.choice(["boot", "optimal", "enkf"]) if c["what"] == "filter" and c["scen"] == "nlg" else "boot"
    else:
        c = {"transformed": sub.random() < 0.4, "max_iter": sub.choice([4, 12]), "float": False}
        if fam == "lv":
            c["init"] = [sub.randint(1, 8), sub.randint(1, 8)]
            c["x"] = [0.5, 0.3, 0.5]
            c["times"] = [0., 0.3, 0.5, 1.2]
        elif fam == "sir":
            c["init"] = [sub.randint(2, 10), sub.randint(1, 3)]
            c["x"] = [1., 0.7]
        else:
            c["init"], c["steps"], c["x"] = 1, sub.randint(2, 6), [44.7, 0.3, 10.]
            c["inds"] = sorted(sub.sample(range(c["steps"]), 2))
    for nm in ("target", "model"):
        f = c.get(nm, {}).get("faults")
        if f and (f["mode"] == "call" or not faults):
            c[nm]["faults"] = {"mode": "none"}
    c["compiled"] = False
    if not draws or "draws" not in c:
        c["draws"] = {"uniform": {}, "normal": {}, "cat": {}}
    c["key"] = sub.randrange(1 << 30)
    c.pop("ops", None)
    return {"fam": fam, "case": c}


def resized(spec, rng):
    """The same sampler settings on another scenario and/or size."""
    s = copy.deepcopy(spec)
    c, fam = s["case"], s["fam"]
    if fam in RUNS:
        c["n"] = c["n"] + rng.choice([1, 2]) if fam in ("teki", "ateki") or c["n"] < 3 else c["n"] + rng.choice([-1, 1])
        if fam in ("teki", "ateki") and rng.random() < 0.5:
            c["constrain"] = not c["constrain"]
        if rng.random() < 0.5:
            t = c["target"]
            t["dim"] = t["dim"] % 3 + 1 if not c.get("init") and fam not in ("svgd",) else t["dim"]
            t["prior_par"] = [round(t["prior_par"][0] + 0.4, 2), t["prior_par"][1]]
            t["init_scale"] = t["init_scale"] * 0.7
            if "seed" in t:
                t["seed"] += 1
    elif fam in SSMS:
        c["n"] += 1
        if rng.random() < 0.5:
            c["model"]["seed"] += 1
            c["model"]["drift"] += 0.5
    else:
        c["x"] = [v * 1.1 for v in c["x"]]
    return s


# ------------------------------------------------------------------ objects
class SimpleABC(abcsim.GaussImportance):
    pass


class SimLike(ssmsim.SimSSM):
    def likelihood_sample(self, x, t, random_key):
        ev = user_event("likelihood_sample", x, random_key, self.faults, {"t1": concrete(t)})
        x = jnp.atleast_1d(x)
        with user_code():
            v = self.H @ x + self.spec["a"] * t + self.spec["r"] * random.normal(random_key, (self.dim_obs,))
        if ev is not None:
            ev["out"] = concrete(v)
        return v


class Objs:
    """scen, sampler (or filter), initial state, run keywords."""

    def __init__(self, scen, sampler=None, init=None, kw=None, inner=None, extra=None):
        self.scen, self.sampler, self.init, self.kw, self.inner, self.extra = scen, sampler, init, kw or {}, inner, extra


def scenario(spec):
    c, fam = spec["case"], spec["fam"]
    if fam in ("rw", "ud", "qn", "smc", "rmsmc", "svgd"):
        return Target(c["target"])
    if fam in ("teki", "ateki"):
        return (tekisim.ConstrainedTarget if c["constrain"] else ABCTarget)(c["target"])
    if fam in RUNS:
        return ABCTarget(c["target"])
    if fam in BUILTIN:
        return builtin(fam, c)
    if fam == "simulate":
        m = dict(c["model"], scalar_init=False)
        return SimLike(m)
    if fam in SSMS:
        return ssmsim.build(c)[0]
    if fam == "lv":
        cls = abc_scen.TransformedLotkaVolterra if c["transformed"] else abc_scen.LotkaVolterra
        s = cls(initial_prey_pred=jnp.asarray(c["init"]), times=jnp.asarray(c["times"]), max_iter=c["max_iter"])
    elif fam == "sir":
        cls = abc_scen.TransformedSIR if c["transformed"] else abc_scen.SIR
        s = cls(initial_si=jnp.asarray(c["init"]), max_iter=c["max_iter"])
    else:
        s = abc_scen.Ricker(initial_n=c["init"], num_steps=c["steps"], observation_inds=jnp.asarray(c["inds"]))
    return s


def builtin(fam, c):
    if fam == "btoy":
        k = c["scen"]
        if k == "gauss":
            return mocat.scenarios.Gaussian(dim=2)
        if k == "corr":
            return mocat.scenarios.Gaussian(mean=jnp.array([0.5, -1.]), covariance=jnp.array([[1., 0.4], [0.4, 2.]]))
        if k == "mix":
            return mocat.scenarios.GaussianMixture(means=jnp.array([[1., 1.], [-1., 0.]]), covariances=jnp.array([jnp.eye(2), 0.5 * jnp.eye(2)]))
        if k == "well":
            return mocat.scenarios.DoubleWell(dim=2)
        if k == "rastrigin":
            return mocat.scenarios.Rastrigin(dim=2)
        return mocat.twodim.Banana()
    if fam == "babc":
        k = c["scen"]
        if k == "lin":
            return LinABC(prior_mean=jnp.zeros(2), data=jnp.ones(2))
        if k == "lv":
            return abc_scen.TransformedLotkaVolterra(initial_prey_pred=jnp.array([6, 4]), times=jnp.array([0., 0.2, 0.5]), max_iter=10, data=jnp.array([5., 5.]))
        cls = {"gk": GKU, "gkt": GKT, "gka": GKA}[k]
        s = cls(n_unsummarised_data=10)
        s.summarise_data = lambda d: jnp.sort(d)[jnp.array([2, 4, 7])]
        s.data = jnp.array([1., 2., 3.])
        return s
    k = c["scen"]
    if k == "lin":
        return ssm.TimeHomogenousLinearGaussian(initial_mean=jnp.zeros(2), initial_covariance=jnp.eye(2), transition_matrix=0.8 * jnp.eye(2),
                                                transition_covariance=0.5 * jnp.eye(2), likelihood_matrix=jnp.ones((1, 2)), likelihood_covariance=jnp.eye(1))
    if k == "sv":
        return ssm.scenarios.StochasticVolatility(dim=1)
    if k == "nl1d":
        return ssm.scenarios.NonLinear1DBenchmark()
    return ssmsim.SimNLG({"dim": 2, "dim_obs": 2, "seed": c["seed"], "drift": 0.2, "q": 0.5, "r": 1., "init": 1., "sin": True})


def initial(spec):
    c, fam = spec["case"], spec["fam"]
    if fam in ("rw", "ud", "qn", "rwabc"):
        v = c.get("init")
        return None if v is None else mocat.cdict(value=jnp.asarray((list(v) * 3)[:c["target"]["dim"]], jnp.float32))
    if fam in RUNS and c.get("init"):
        r = np.random.default_rng(c["key"])
        st = mocat.cdict(value=jnp.asarray(r.normal(size=(c["n"], c["target"]["dim"])), jnp.float32))
        if c["init"] == "data":
            st.simulated_data = jnp.asarray(r.normal(size=(c["n"], c["target"]["dim_obs"])), jnp.float32)
        return st
    return None


def sampler(spec):
    """(sampler, run keywords, inner sampler)"""
    c, fam = spec["case"], spec["fam"]
    if fam in ("rw", "ud", "qn"):
        _, s, _, kw = mcmc.build(c)
        return s, kw, None
    if fam in ("smc", "rmsmc"):
        s, inner = smc.build(c)
        return s, {}, inner
    if fam == "svgd":
        return svgdsim.build(c)[1], {}, None
    if fam in ("teki", "ateki"):
        _, s, _, kw = tekisim.build(c)
        return s, kw, None
    if fam == "abcsmc":
        return abcsim.make_smc(c) + (None,)
    if fam in RUNS:
        return abcsim.make_chain(c) + (None,)
    if fam in SSMS:
        return ssmsim.build(c)[1], {}, None
    if fam == "bssm":
        return {"boot": ssm.BootstrapFilter, "optimal": ssm.OptimalNonLinearGaussianParticleFilter, "enkf": ssm.EnsembleKalmanFilter}[c["filter"]](), {}, None
    if fam in ("btoy", "babc"):
        a = c["alg"]
        return {"rw": lambda: T(mocat.RandomWalk)(stepsize=0.3), "ud": lambda: T(mocat.Underdamped)(stepsize=0.1, leapfrog_steps=2, friction=1.),
                "svgd": lambda: T(svgdsim.SVGD)(stepsize=0.2, max_iter=2, ensemble_batchsize=2),
                "smc": lambda: T(mocat.MetropolisedSMCSampler)(T(mocat.RandomWalk)(stepsize=0.3), temperature_schedule=jnp.array([0.3, 1.])),
                "vanilla": lambda: T(mocat.abc.VanillaABC)(threshold=2.), "rwabc": lambda: T(mocat.abc.RandomWalkABC)(threshold=20., stepsize=0.3),
                "teki": lambda: T(mocat.TemperedEKI)(temperature_schedule=jnp.array([0.2, 0.5]), nugget=1e-3),
                "abcsmc": lambda: T(mocat.abc.MetropolisedABCSMCSampler)(threshold_schedule=jnp.array([30., 10.]))}[a](), {}, None
    return None, {}, None


def build(spec):
    s, kw, inner = sampler(spec)
    return Objs(scenario(spec), s, initial(spec), kw, inner)


# ------------------------------------------------------------------ execution
def go(spec, ob, key, thaw=None):
    """Carries the work out with the given objects; returns the records as nested dicts of arrays."""
    return records(raw(spec, ob, key))


def raw(spec, ob, key):
    c, fam = spec["case"], spec["fam"]
    if fam in RUNS or fam in ("btoy", "babc"):
        return mocat.run(ob.scen, ob.sampler, c["n"], key, initial_state=ob.init, initial_extra=ob.extra, **ob.kw)
    if fam in SSMS or fam == "bssm":
        if fam == "bssm":
            fam = c["what"]
            ts = np.asarray(c["times"], np.float32)
            ys = np.random.default_rng(c["seed"]).normal(size=(len(ts), {"lin": 1, "sv": 1, "nl1d": 1, "nlg": 2}[c["scen"]])).astype(np.float32)
        else:
            ys, ts = ssmsim.data(c)
        yj, tj = jnp.asarray(ys), jnp.asarray(ts)
        if fam == "filter":
            return ssm.run_particle_filter_for_marginals(ob.scen, ob.sampler, yj, tj, key, n=c["n"], ess_threshold=c["thr"])
        if fam in ("online", "lag"):
            ks = random.split(key, len(ts))
            p = ssm.initiate_particles(ob.scen, ob.sampler, c["n"], ks[0], yj[0], tj[0])
            for k in range(1, len(ts)):
                if fam == "online":
                    p = ssm.propagate_particle_filter(ob.scen, ob.sampler, p, yj[k], tj[k], ks[k], c["thr"], c["full"])
                else:
                    p = ssm.propagate_particle_smoother(ob.scen, ob.sampler, p, yj[k], tj[k], ks[k], c["lag"], c["bs"], c["thr"],
                                                        c["maxrej"], c["bound"], c["infl"])
            return p
        if fam == "back":
            k1, k2 = random.split(key)
            m = ssm.run_particle_filter_for_marginals(ob.scen, ob.sampler, yj, tj, k1, n=c["n"], ess_threshold=c["thr"])
            return ssm.backward_simulation(ob.scen, m, k2, c["nsamps"], c["maxrej"], c["bound"], c["infl"])
        if fam == "ffbsi":
            return ssm.forward_filtering_backward_simulation(ob.scen, ob.sampler, yj, tj, c["nsamps"] or c["n"], key, c["n"], c["thr"],
                                                             c["maxrej"], c["bound"], c["infl"])
        return ob.scen.simulate(tj, key)
    x = jnp.asarray(c["x"], jnp.float32)
    if fam in ("lv", "sir") and c["transformed"]:
        x = jnp.log(x)
    if fam == "sir":
        t, si = ob.scen.simulate_times_and_si(x, key)
        return mocat.cdict(value=si, times=t)
    return mocat.cdict(value=ob.scen.likelihood_sample(x, key))


def records(chain):
    s = snap(chain)
    for k in ("time", "pf_time", "bsi_time", "summary"):
        s.pop(k, None)
    return s


def set_plan(spec, ctx):
    plan = (ssmsim.SsmDraws if spec["fam"] in SSMS else DrawPlan)(spec["case"]["draws"])
    ctx.draw_hook = plan
    return plan


diff = ssmsim.same_snap
