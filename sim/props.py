"""Registry: property -> module, sizes and evidence texts."""
import importlib
import types

INFO = {}


def _reg(prop, module, quick, thorough, rule, real, stub, assumptions, deadline=None):
    INFO[prop] = {"module": module, "cases": {"quick": quick, "thorough": thorough}, "rule": rule, "real": real,
                  "stub": stub, "assumptions": assumptions, "deadline": deadline or {"quick": 420, "thorough": 3000}}


STUB_JAX = ["jax.jit / vmap / lax.scan / cond / while_loop / map execute their bodies step by step under the simulator (stepped cases)",
            "jax.random draws recorded; selected draws replaced by extreme values",
            "user potentials / simulators are harness scenarios with known values"]
REAL = ["mocat (imported from /repo)", "JAX 0.4.18 numerics on CPU"]
ASSUME = ["single-threaded XLA CPU is deterministic", "the stepped execution is what JAX traces (checked by selftest against compiled runs)",
          "differences below the stated float tolerance and decisions within it of the boundary are not judged"]

_reg("C03", "mcmc", 220, 6000, "seeded cases: sampler (random walk, underdamped, quasi-Newton) x target x settings x correction x draws x evaluation faults; a case counts when it has at least one transition; distinct by event log", REAL, STUB_JAX, ASSUME)
_reg("C04", "mcmc", 260, 8000, "as C03 plus extreme draws, split runs and temperature changes; a case counts when it has at least one transition; distinct by event log", REAL, STUB_JAX, ASSUME)
_reg("C05", "mcmc", 260, 8000, "adaptive runs with varying schedule constants, cut-offs, targets and failing evaluations; distinct by event log", REAL, STUB_JAX, ASSUME)

REAL_FS = ["mocat.save_cdict / load_cdict / cdict.save (from /repo)", "pickle, io.BufferedWriter, pathlib on a scratch directory"]
STUB_FS = ["file-system calls of the saving process pass through a simulated disk (fault points, durability model, process death)"]
ASSUME_FS = ["after a power loss directory operations survive as a prefix of their order; unsynced file data may be lost, partial, zeroed or complete",
             "between two operations of a history all data reaches the disk"]
_reg("C01", "disk", 1600, 60000, "histories of saves with faults at file-system calls; a case counts when a save ran; distinct by (outcome, fault point, number of calls) trail", REAL_FS, STUB_FS, ASSUME_FS)
_reg("C02", "disk", 1600, 60000, "histories of save / overwrite / load / mutate / restart / failing saves; distinct by trail", REAL_FS, STUB_FS, ASSUME_FS)

_reg("C06", "smc", 130, 4000, "tempered SMC runs: inner kernel x schedule or adaptive x thresholds x draws x failing likelihood regions; counts when at least one stage was carried out; distinct by stages", REAL, STUB_JAX, ASSUME)

STUB_ABC = STUB_JAX[:2] + ["simulators are harness scenarios that fail (NaN) in a region or at chosen calls"]
_reg("C07", "abcsim", 320, 9000, "ABC rejection (fixed threshold, quantile, importance) and ABC MCMC runs x failing simulators x extreme draws; counts when it has at least two records; distinct by records", REAL, STUB_ABC, ASSUME)
_reg("C08", "abcsim", 130, 5000, "ABC SMC runs: schedule or adaptive x thresholds x failing simulators x extreme draws; counts when at least one stage was carried out; distinct by records", REAL, STUB_ABC, ASSUME)


STUB_SSM = STUB_JAX[:2] + ["state-space models are harness models (linear or sine drift, Gaussian or bounded noise) whose likelihood is impossible in a region or fails at chosen calls"]
_reg("C09", "ssmsim", 150, 5000, "streams of observations with saves, crashes and restarts, interrupted and failing steps, duplicates, compared with the undisturbed stream and the batch filter; distinct by history and final particles", REAL, STUB_SSM, ASSUME)
_reg("C10", "ssmsim", 200, 7000, "backward simulations (full, rejection) over real and hand-made filter outputs x extreme draws x undefined transitions; distinct by paths", REAL, STUB_SSM, ASSUME)
_reg("C11", "ssmsim", 110, 4000, "fixed-lag smoothing streams x lag x variant x stitching x histories of faults; distinct by history and trajectories", REAL, STUB_SSM, ASSUME)
_reg("C20", "ssmsim", 240, 8000, "filter runs (batch, streamed) x filter x thresholds x impossible observations x adversarial resampling draws; distinct by particles", REAL, STUB_SSM, ASSUME)

_reg("C16", "tekisim", 150, 5000, "tempered ensemble Kalman runs: schedule, rule, default or adaptive x nugget x spread limit x failing simulators x extreme draws; counts when at least one stage was carried out; distinct by ensembles", REAL, STUB_ABC, ASSUME)
_reg("C17", "svgdsim", 200, 7000, "Stein variational runs: optimiser x step size rule x kernel x mini-batch x failing gradients; counts when an ensemble moved; distinct by ensembles", REAL, STUB_JAX, ASSUME)
_reg("C18", "eventsim", 400, 20000, "predator-prey, epidemic and Ricker simulations x initial populations x rates (zero included) x observation times x event limits x extreme draws; distinct by reported populations", REAL, STUB_JAX[:2], ASSUME)

_reg("C15", "keysim", 260, 9000, "works of every kind (samplers, filters, smoothers, simulators, built-in models) x settings x adversarial draws, each with two different caller's keys; distinct by sequence of draws and splits", REAL, STUB_SSM, ASSUME)

_reg("C14", "clocksim", 200, 8000, "sampler runs and forward filtering backward simulations x clock steps, drift, stalls and asynchronous device time x chaining and reloading; counts when the clock was disturbed; distinct by durations and clock events", REAL, STUB_SSM + ["time, monotonic, perf_counter and CPU clocks are served by one simulated timeline; waiting for a result lets simulated device time pass"], ASSUME)

_reg("C12", "isosim", 130, 5000, "works of every kind repeated after other runs (same or other objects, sizes, scenarios), interleaved on scheduled threads, in fresh processes, step by step and compiled; distinct by work, history or schedule and records", REAL, STUB_SSM + ["threads are handed over by a seeded scheduler at simulated steps"], ASSUME)
_reg("C13", "isosim", 160, 6000, "works of every kind interrupted at a step or failing in a user callback, then evaluated and run again; counts when the failure struck; distinct by work, failure points and records", REAL, STUB_SSM, ASSUME)

_reg("C19", "confsim", 208, 10000, "histories of setting changes, evaluations, completed and interrupted runs on one scenario / model / sampler, then compared with objects built fresh; counts when a setting was changed; distinct by history and results", REAL, STUB_SSM, ASSUME)

STUB_DEN = ["jax.random draws are chosen by the simulator, which makes a sampling function a map of its draws", "a time-varying linear Gaussian harness model (part of the cases)"]
_reg("C21", "densim", 120, 5000, "linear Gaussian models (built-in with settings set and changed, time-varying) x times x observations: joint law read off the real simulate, filter and smoother compared with exact conditioning; distinct by model and posterior means", REAL, STUB_DEN, ASSUME)
_reg("C22", "densim", 160, 6000, "built-in models (state-space, filters' proposals, ABC, toy) with settings set and changed x chosen draws: potential against density of the samples, gradients, supports, weights; distinct by model, settings and densities", REAL, STUB_DEN, ASSUME)


_reg("C25", "recsim", 600, 40000, "histories of slices, gathers, chains, copies, assignments and tree operations on records (generated and of real runs) with failing array operations; distinct by history", ["mocat.cdict, static_cdict (from /repo)", "JAX 0.4.18 arrays"], ["array operations fail at chosen calls (out of memory)"], ["records whose fields have unequal shapes or kinds are not judged beyond leaving their operands alone"])


def load(prop):
    m = importlib.import_module(INFO[prop]["module"])
    return types.SimpleNamespace(gen=lambda rng, i, tier: m.gen(prop, rng, i, tier), run=m.run, shrinks=m.shrinks)

NOT_APPLICABLE = {
    "C23": "pure numeric formulas of arrays: no nondeterminism, time, I/O or history involved",
    "C24": "a statement about limits of infinitely long runs; a finite simulated execution can neither confirm nor refute it without a statistical test of real randomness",
}
