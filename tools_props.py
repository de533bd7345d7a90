#!/usr/bin/env python3
"""Generates properties.jsonl (kept as the single editable source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "A save is all-or-nothing under I/O errors, crashes and power loss",
  "If saving an object is cut short at any point (full disk, I/O error, content that cannot be serialised, killed process, power loss), the target path afterwards holds either the complete previous file or the complete new one: an existing file is never lost, truncated or mixed. A path that held nothing afterwards either still holds nothing or holds the complete new file. Once a save has returned, the new contents survive a process crash.",
  ["crash_points", "fault_sequences", "histories"],
  "every file-system call a save makes, as the place where an error, a short write, a process kill or a power loss happens; with or without an earlier file; every content",
  "Tests save one object to a healthy disk; no crash point or disk error is ever produced.",
  ["mocat/src/core.py"], [("write of the new contents and switch-over", "mocat/src/core.py: save_cdict")],
  [("target file", "the durable copy of the object", "file system")], ["mocat.load_cdict after restart"])
p("C02", "Load returns exactly what the last successful save wrote",
  "Over any history of saves, overwriting saves, failed saves, later mutation of the saved object, and loads across restarts, loading a path returns exactly what the last successful save to that path wrote: same keys, nested containers, array shapes, dtypes and values (NaN and infinities included). A save without permission to overwrite raises and leaves an existing file untouched, the '.cdict' suffix is enforced on save, missing parent folders are created, and loading a missing path or a file that is not a '.cdict' raises.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of save / overwrite / load / mutate / restart operations with disk faults in between, over every storable object",
  "Tests exercise one save and one load; histories, overwrites after failures and nested contents are not sampled.",
  ["mocat/src/core.py"], [("overwrite guard, suffix handling, pickling and conversion on load", "mocat/src/core.py: save_cdict, load_cdict, cdict.save")],
  [], ["mocat.save_cdict", "mocat.load_cdict"])
p("C03", "Markov chain records stay consistent when target evaluations fail",
  "Running any Markov chain sampler with a Metropolis-type correction for n states returns exactly n records, the first being the initial state, and each later record is either the previous record's position with all its stored potentials and gradients, or a new position whose stored potentials and gradients are those of that position. A proposal whose potential evaluates to NaN or +infinity is never entered, and the recorded acceptance probability is always a number in [0, 1] that is positive whenever the chain moved.",
  ["fault_sequences", "inputs", "configurations"],
  "every target, dimension, sampler setting, random stream, and every pattern of evaluations returning NaN or +inf",
  "Tests run three healthy targets and compare sample moments; no evaluation ever fails and per-record consistency is not looked at.",
  ["mocat/src/sample.py", "mocat/src/utils.py", "mocat/src/mcmc/sampler.py", "mocat/src/mcmc/metropolis.py", "mocat/src/mcmc/standard_mcmc.py", "mocat/src/mcmc/qn_underdamped.py"],
  [("stacked loop and chain assembly", "mocat/src/sample.py: run; mocat/src/utils.py: while_loop_stacked"), ("accept / reject with NaN guard", "mocat/src/mcmc/metropolis.py: Metropolis.correct")],
  [("state.potential, state.grad_potential", "values cached with a position", "chain state"), ("state.alpha", "acceptance probability of the step", "chain state")],
  ["mocat.run return value"])
p("C04", "Every Markov transition is the accept/reject step of its algorithm",
  "Given the random numbers a step consumes, each transition of the random walk, underdamped/Hamiltonian and quasi-Newton underdamped samplers moves to exactly the proposal its algorithm defines (Gaussian increment of variance stepsize; refreshed momentum followed by the configured number of leapfrog steps; for the quasi-Newton sampler with the inverse-Hessian approximation built from the configured number of latest positions and gradients), and it moves if and only if its uniform draw is below min(1, exp(-change in total energy)) at the scenario's current temperature. The momentum is carried over (from the given initial state on), negated and refreshed by the configured friction as the algorithm prescribes, on acceptance and on rejection, and without a correction every proposal is taken.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "every sequence of random draws (including extreme ones), start point, stepsize, friction, number of leapfrog steps, temperature and failing evaluation",
  "Tests check long-run means with loose tolerances; a wrong ratio at the edge, a lost momentum flip or a draw at an extreme value is invisible to them.",
  ["mocat/src/mcmc/metropolis.py", "mocat/src/mcmc/standard_mcmc.py", "mocat/src/mcmc/qn_underdamped.py", "mocat/src/mcmc/sampler.py", "mocat/src/utils.py"],
  [("proposal and acceptance ratio", "mocat/src/mcmc/standard_mcmc.py, mocat/src/mcmc/qn_underdamped.py"), ("leapfrog integrator", "mocat/src/utils.py: leapfrog")],
  [("state.momenta", "auxiliary momentum", "chain state")], ["mocat.run return value", "draws of jax.random"])
p("C05", "Adaptive tuning follows its Robbins-Monro recursion and stops at the cut-off",
  "With an adaptive correction, the recorded tuned parameter of every state equals the previous one updated by the configured Robbins-Monro rule (scale, decay exponent, direction, target, log or linear scale) from that step's acceptance metric for every iteration up to the adaptation cut-off, and is constant afterwards; it starts from the user's value or the documented default. Failed evaluations count as rejections and never make a log-scale parameter non-positive or non-finite, the value recorded is the one the next proposal uses, and the per-coordinate step sizes of the adaptive ABC kernel follow the running variance of the chain in the same way.",
  ["fault_sequences", "histories", "configurations"],
  "every acceptance history, cut-off, schedule constant, target, and pattern of failing evaluations",
  "Tests only look at the final acceptance rate of healthy runs with one schedule.",
  ["mocat/src/mcmc/metropolis.py", "mocat/src/abc/mcmc.py"],
  [("Robbins-Monro update", "mocat/src/mcmc/metropolis.py: RMMetropolis.adapt"), ("diagonal step sizes", "mocat/src/abc/mcmc.py: RMMetropolisDiagStepsize")],
  [("extra.parameters.<tuned>", "current tuned parameter", "sampler extra")], ["mocat.run return value"])
p("C06", "Tempered SMC keeps an exact account of temperatures, weights and evidence",
  "At every recorded stage of a tempered sequential Monte Carlo run: temperatures follow the given schedule, or rise monotonically towards the maximum by steps whose retained effective sample size is the requested fraction (of the particles whose likelihood is defined; a particle of infinite or undefined likelihood has no weight), and the run stops at the maximum temperature or the iteration limit; each particle's log weight is its previous one (zero after a resample, which happens exactly when the effective sample size fell to the threshold) minus the temperature increment times its likelihood potential; effective sample size, normalising-constant estimate, tempered potentials and gradients agree with those weights, positions and temperature. Particles move only by the configured number of steps of the inner Markov kernel at the current temperature from a parent of positive weight, and in the adaptive variant the kernel's stepsize follows its recursion.",
  ["schedules", "fault_sequences", "configurations"],
  "every random stream, schedule or adaptive setting, thresholds, inner kernel, and likelihood evaluations returning NaN or +inf for some particles",
  "Tests check final moments on one Gaussian; intermediate weights, evidence and failing particles are not examined.",
  ["mocat/src/transport/smc.py", "mocat/src/transport/sampler.py", "mocat/src/metrics.py", "mocat/src/utils.py"],
  [("weighting, resampling, next temperature", "mocat/src/transport/smc.py"), ("root finding for the next temperature", "mocat/src/utils.py: bisect")],
  [("log_weight, ess, log_norm_constant, temperature", "the population's accounting", "ensemble state")], ["mocat.run return value", "scenario.temperature"])
p("C07", "ABC rejection and ABC MCMC never use a simulation that does not match",
  "In every record of an ABC rejection or ABC Markov chain run, the distance is that of the recorded simulated data to the observed data and the simulated data came from the simulator at the recorded position. In ABC rejection a record carries weight if and only if its distance is below the threshold (fixed, or the requested quantile of the distances); in ABC MCMC the chain moves if and only if the uniform draw is below the prior ratio and the proposed distance is below the threshold, keeping position, data and distance together otherwise. A simulation that fails (NaN output) never carries weight, is never moved to, and does not spoil the weights of other records.",
  ["fault_sequences", "schedules", "configurations"],
  "every simulator, random stream, threshold, acceptance rate and every pattern of simulator failures",
  "Tests run healthy simulators and look at posterior means only.",
  ["mocat/src/abc/abc.py", "mocat/src/abc/importance.py", "mocat/src/abc/mcmc.py", "mocat/src/mcmc/metropolis.py"],
  [("rejection weights", "mocat/src/abc/importance.py"), ("ABC acceptance", "mocat/src/abc/mcmc.py")],
  [("simulated_data, distance, log_weight", "what a record is weighted on", "state")], ["mocat.run return value", "calls of the user's simulator"])
p("C08", "ABC SMC populations stay below threshold and exclude failed simulations",
  "At every recorded stage of an ABC SMC run, each particle's distance and prior potential belong to its recorded position and simulated data, a particle has weight exactly when its distance does not exceed the stage's threshold (a failed, NaN, simulation never has weight), the effective sample size is that of the weights, and thresholds follow the given schedule or, when adaptive, are the requested quantile of the particle distances (failed simulations counting as infinitely far) or the previous threshold where that is smaller. Resampling happens exactly when the effective sample size is below its threshold and copies only particles with weight; a particle without weight does not move; any other particle moves only by the configured number of ABC MCMC steps at the previous threshold. The run ends at the iteration limit or when mean acceptance falls to the termination level.",
  ["fault_sequences", "schedules", "configurations"],
  "every simulator, random stream, threshold schedule, adaptive setting, number of inner steps and pattern of simulator failures",
  "Tests check posterior moments of one healthy linear Gaussian model.",
  ["mocat/src/abc/smc.py", "mocat/src/abc/mcmc.py", "mocat/src/transport/smc.py"],
  [("threshold, weights, dead particles", "mocat/src/abc/smc.py")],
  [("threshold, log_weight, ess", "population accounting", "ensemble state")], ["mocat.run return value", "calls of the user's simulator"])
p("C09", "Online filtering equals batch filtering across restarts, retries and splits",
  "Feeding observations one at a time to the particle filter, with the state saved, the process restarted and the state loaded at any points, gives the same particles, log weights and effective sample sizes as an uninterrupted run on the same observations and step keys, and the batch filter resumed from any intermediate state continues identically. The observations, times and effective sample sizes recorded are exactly those delivered and computed, in order, for observations of any dimension. A step never alters the state object it was given, so a step retried after a failure gives the same result and a duplicated delivery of an observation changes nothing if its first result is kept.",
  ["crash_points", "histories", "fault_sequences", "configurations"],
  "every observation sequence, split between batch and online, crash/restart point, failed and retried step, filter type, resampling threshold and mode",
  "Tests run the batch filter once per model; streaming with interruptions and multi-dimensional observations is not compared.",
  ["mocat/src/ssm/filtering.py", "mocat/src/ssm/nonlinear_gaussian.py", "mocat/src/core.py"],
  [("online step", "mocat/src/ssm/filtering.py: propagate_particle_filter"), ("batch run", "mocat/src/ssm/filtering.py: run_particle_filter_for_marginals")],
  [("particles.value, log_weight, y, t, ess", "the filter's full state", "cdict")], ["return values of the filtering functions"])
p("C10", "Backward smoothing draws whole paths through the filter's own particles",
  "Every coordinate of every trajectory drawn by backward simulation is one of the filter's particles at that time, with positive weight and positive transition density to the trajectory's next point; the same holds for full and rejection backward simulation under any draws. Full backward simulation draws each coordinate with probability proportional to filter weight times transition density. A rejection candidate is accepted exactly when its density is positive and its uniform draw does not exceed its transition density over the current bound, a bound found to be exceeded restarts the round with an enlarged bound, at most the configured number of rejection rounds is made before falling back to exact resampling, and the recorded number of transition evaluations counts what was really evaluated.",
  ["schedules", "configurations", "inputs"],
  "every random stream (including adversarial rejection streaks), bound parameter, inflation, maximum rejections, number of particles and trajectories",
  "Tests compare smoothing means with loose tolerance; rejection accounting and extreme draws never occur.",
  ["mocat/src/ssm/backward.py"],
  [("full and rejection backward simulation", "mocat/src/ssm/backward.py")],
  [("num_transition_evals", "work accounting", "output cdict")], ["return value of backward_simulation and forward_filtering_backward_simulation"])
p("C11", "Fixed-lag smoothing never rewrites history older than the lag",
  "When a fixed-lag smoother absorbs a new observation, the coordinates of every trajectory older than the lag are exactly those of one trajectory of the previous state (all of them unchanged and in place once stitching is active), and the recent coordinates are one intact block taken from a single candidate trajectory, newest coordinate from the newest filter particles, for both the filter-based and the backward-simulation variant and for full and rejection stitching. Observations, times and transition counts are recorded in order, weights are reset once stitched, and interrupting, saving, restarting and retrying between steps does not change the result.",
  ["histories", "schedules", "crash_points", "configurations"],
  "every lag, observation sequence, random stream, stitching mode, and crash/restart point between steps",
  "Tests compare smoothed means at the end of one healthy stream.",
  ["mocat/src/ssm/online_smoothing.py", "mocat/src/ssm/backward.py", "mocat/src/ssm/filtering.py"],
  [("fixed-lag stitching", "mocat/src/ssm/online_smoothing.py")],
  [("value, marginal_filter, log_weight", "smoother state", "cdict")], ["return value of propagate_particle_smoother"])
p("C12", "A run depends only on its configuration and key, not on other runs",
  "The result of a run, filter or smoother call is determined by its scenario, sampler settings, initial state and random key: repeating it, running it after any other runs in the same process (with the same or other sampler objects, sizes and scenarios), interleaving it with independent runs on other threads, or running it in a fresh process gives the same records. Running does not alter scenario or sampler settings other than those given to the run as keywords and those documented to be tuned (the final temperature of tempered SMC, the quantile threshold of ABC rejection), and never alters the initial state it was given or results returned earlier.",
  ["histories", "schedules", "configurations"],
  "every sequence and interleaving of earlier and concurrent runs, sizes, samplers and keys",
  "Tests run each sampler once per process in a fixed order; no history or interleaving is compared.",
  ["mocat/src/sample.py", "mocat/src/transport/svgd.py", "mocat/src/transport/smc.py", "mocat/src/transport/teki.py", "mocat/src/abc/smc.py", "mocat/src/mcmc/sampler.py", "mocat/src/core.py"],
  [("parameters copied into a run", "mocat/src/sample.py: Sampler.startup"), ("per-run start-up of samplers", "mocat/src/transport/*.py, mocat/src/abc/*.py, mocat/src/mcmc/*.py")],
  [("sampler.parameters, scenario.temperature", "state shared between runs", "sampler and scenario objects")], ["mocat.run return value", "sampler and scenario attributes"])
p("C13", "A run that fails midway leaves scenario and sampler as good as new",
  "If a run is interrupted or a user callback raises at any point, the exception reaches the caller, and afterwards the scenario evaluates the same potentials at the same temperature as before the run and a further run with the same scenario and sampler gives the same result as with freshly built ones.",
  ["crash_points", "fault_sequences", "configurations"],
  "every point inside a run (including start-up and clean-up), every sampler family and both compiled and step-by-step execution",
  "Tests never interrupt a run.",
  ["mocat/src/sample.py", "mocat/src/transport/smc.py", "mocat/src/abc/smc.py", "mocat/src/mcmc/sampler.py"],
  [("temperature set during a run and set back", "mocat/src/transport/smc.py: TemperedSMCSampler"), ("run", "mocat/src/sample.py: run")],
  [("scenario.temperature", "temperature at which the scenario evaluates", "scenario")], ["scenario.potential after the failure", "mocat.run return value"])
p("C14", "Reported durations are elapsed time whatever the wall clock does",
  "The duration reported with a result is non-negative and equals the time that elapsed while the work ran, even if the system clock is stepped forwards or backwards meanwhile; the filtering and backward-simulation parts add up to the reported total. Clock behaviour never changes any sampled value, and chaining results adds their durations.",
  ["fault_sequences", "histories"],
  "every pattern of clock steps, drifts and stalls during a run",
  "Tests use the real clock, which does not jump while they run.",
  ["mocat/src/sample.py", "mocat/src/ssm/backward.py", "mocat/src/core.py"],
  [("timing of a run", "mocat/src/sample.py: run"), ("timing of forward filtering backward simulation", "mocat/src/ssm/backward.py")],
  [], ["time, pf_time, bsi_time of the result"])
p("C15", "No random key is used for two different draws",
  "Within a run, filter, smoother or simulation call, no random key is used for two draws (of the library itself or handed to a user's sampling callback), nor both drawn from and split, so every random number is fresh: across iterations, particles, time steps, resampling, proposals, acceptance, rejection retries and stitching. Different caller keys never lead to shared draws, and the key kept for continuation has not been used.",
  ["schedules", "configurations", "histories"],
  "every sampler and state-space routine, sizes, branch pattern taken (resampled or not, accepted or not, rejected and retried) and continuation",
  "Key reuse only shows as a subtle correlation; tests compare moments and cannot see it.",
  ["mocat/src/mcmc/standard_mcmc.py", "mocat/src/mcmc/metropolis.py", "mocat/src/transport/smc.py", "mocat/src/transport/teki.py", "mocat/src/transport/svgd.py", "mocat/src/abc/importance.py", "mocat/src/abc/mcmc.py", "mocat/src/abc/smc.py", "mocat/src/ssm/filtering.py", "mocat/src/ssm/backward.py", "mocat/src/ssm/online_smoothing.py", "mocat/src/ssm/ssm.py"],
  [("key splitting in every sampler", "mocat/src/**")],
  [("extra.random_key", "key carried through a run", "sampler extra")], ["calls of jax.random"])
p("C16", "Ensemble Kalman inversion moves the whole ensemble along one temperature path",
  "At every stage of tempered ensemble Kalman inversion the temperature follows the given schedule or rule, or in the adaptive version rises to at most the maximum by the step that keeps the requested effective sample size; each particle moves by the Kalman gain of the current ensemble, tempered by that step, applied to its own perturbed data mismatch, and its recorded simulated data came from the simulator at its new position. The run stops when the temperature reaches its maximum, at the iteration limit, when the ensemble spread falls below the configured fraction of the initial spread, or as soon as a position becomes NaN, and the stages recorded are exactly those carried out.",
  ["schedules", "fault_sequences", "configurations"],
  "every random stream, schedule, simulator, ensemble size and simulator failure",
  "There are no tests of these samplers at all.",
  ["mocat/src/transport/teki.py", "mocat/src/transport/sampler.py"],
  [("ensemble update and temperature", "mocat/src/transport/teki.py")],
  [("temperature, value, simulated_data", "ensemble state", "ensemble state")], ["mocat.run return value", "calls of the user's simulator"])
p("C17", "Stein variational descent applies its update to every particle at every step",
  "Each recorded step of Stein variational gradient descent moves every particle by the configured optimiser applied to the kernelised gradient direction of the current ensemble (over the whole ensemble, or over that step's drawn mini-batch of the configured size), with the kernel bandwidth of the current ensemble when it is adapted; potentials and gradients recorded with the ensemble are those of the recorded positions. The requested number of iterations is carried out, from the given or drawn initial ensemble.",
  ["schedules", "configurations", "fault_sequences"],
  "every target, ensemble size, batch size, kernel, optimiser, random stream and failing gradient evaluation",
  "Tests look only at final means and variances of one Gaussian.",
  ["mocat/src/transport/svgd.py", "mocat/src/kernels.py"],
  [("kernelised gradient and optimiser step", "mocat/src/transport/svgd.py")],
  [("opt_state, kernel bandwidth", "optimiser state carried between steps", "sampler extra")], ["mocat.run return value"])
p("C18", "Event simulators keep populations valid and report the state at each time",
  "For any random draws, the stochastic predator-prey and epidemic simulators change the populations by exactly one admissible event at a time, with each event possible only when its hazard is positive, so that counts never become negative and population totals are conserved where the model conserves them; simulated time never goes backwards and the epidemic runs until nobody is infected or the event limit. The values reported for the observation times are the populations in force at those times (the initial ones before the first event), and the Ricker model applies its recursion and observes non-negative counts at the requested indices.",
  ["schedules", "inputs", "configurations"],
  "every stream of event times and types (including extreme draws), rates, initial populations, observation times (also not starting at zero) and event limits",
  "Only one seed per model is ever run; extinction, early observation times, non-zero start times and extreme draws are not.",
  ["mocat/src/abc/scenarios/lotka_volterra.py", "mocat/src/abc/scenarios/SIR.py", "mocat/src/abc/scenarios/ricker.py", "mocat/src/utils.py"],
  [("single event step and lookup of observation times", "mocat/src/abc/scenarios/*.py"), ("stacked event loop", "mocat/src/utils.py: _while_loop_stacked")],
  [], ["likelihood_sample, simulate_times_and_si, ricker_simulate"])
p("C19", "Changing a setting takes effect everywhere at once",
  "After any sequence of changes to the settings of a scenario, state-space model or sampler (covariances, means, temperature, potentials, data, schedules, thresholds, corrections, tuning parameters), interleaved with runs, every later evaluation and run behaves as for an object built fresh with the final settings: potentials, gradients, samplers, schedules and iteration limits agree with each other and nothing uses a value from before the change.",
  ["histories", "configurations"],
  "every sequence of setting changes, evaluations and runs, on every configurable object, compiled and not",
  "Tests build each object once; stale caches after a change are never looked for.",
  ["mocat/src/core.py", "mocat/src/utils.py", "mocat/src/scenarios/toy_examples.py", "mocat/src/transport/smc.py", "mocat/src/transport/teki.py", "mocat/src/abc/smc.py", "mocat/src/sample.py", "mocat/src/ssm/nonlinear_gaussian.py", "mocat/src/ssm/linear_gaussian/linear_gaussian.py", "mocat/src/ssm/filtering.py", "mocat/src/abc/scenarios/linear_gaussian.py"],
  [("derived values recomputed on assignment", "__setattr__ of scenarios and samplers; reset_covariance"), ("cached compiled functions", "jit with static arguments in mocat/src/utils.py, mocat/src/ssm/*.py")],
  [("precision_sqrt, next_temperature, next_threshold, max_iter", "values derived from settings", "scenario and sampler objects")], ["potentials, gradients and run results after a change"])
p("C20", "Every particle filter step weights and resamples as its model prescribes",
  "At every time step of any particle filter, particles are resampled (from the current weights, then weights reset to zero) exactly when the effective sample size is below the requested fraction of their number and left untouched otherwise; each particle is then propagated from its own parent by the filter's proposal and its log weight increases by exactly the incremental weight of that filter given parent, child and the observation at that time. The effective sample size reported is that of the reported weights, and observations impossible for some particles (infinite or undefined potential) never give such a particle weight while others have any.",
  ["schedules", "fault_sequences", "configurations"],
  "every model, filter, random stream, resampling threshold, observation sequence and pattern of impossible observations",
  "Tests compare filtering means with the Kalman filter for one model each; resampling decisions and individual weights are not examined.",
  ["mocat/src/ssm/filtering.py", "mocat/src/ssm/nonlinear_gaussian.py", "mocat/src/metrics.py"],
  [("resample and propagate", "mocat/src/ssm/filtering.py"), ("optimal and ensemble filters", "mocat/src/ssm/nonlinear_gaussian.py")],
  [("log_weight, ess", "filter weights", "particles cdict")], ["return values of the filtering functions"])
p("C21", "Kalman filter and smoother compute the exact Gaussian posterior",
  "For every linear Gaussian state-space model (time-varying ones included), observation sequence and set of times, the Kalman filter returns the exact means and covariances of each state given the observations so far, and the Kalman smoother those given all observations together with the exact lag-one second moments, of the very model that simulate draws from.",
  ["inputs", "configurations"], "every model, every draw of its simulation and every observation sequence", "Tests compare a few models with identity-like covariances.",
  ["mocat/src/ssm/linear_gaussian/kalman.py"], [("Kalman recursions", "mocat/src/ssm/linear_gaussian/kalman.py")])
p("C22", "Potentials, gradients and samplers of a model describe one distribution",
  "For every built-in scenario, state-space model and particle filter, whatever its settings: a potential is the negative log density (up to a constant) of what the matching sampling function draws - priors (transformed ones included), initial states, transitions, likelihoods, proposals, and the smoothing potential for simulate; nothing that can be drawn has infinite potential and what lies outside the support of the samples is excluded; Gaussian and mixture scenarios have the configured means, covariances and weights; a filter's incremental weights make up exactly for its proposals; the variants of a simulator with fixed or transformed parameters simulate what the full simulator does; and gradients are the derivatives of the potentials.",
  ["inputs", "configurations"], "every parameter setting, every draw and every point", "Tests check a few points and diagonal covariances.",
  ["mocat/src/scenarios/toy_examples.py", "mocat/src/ssm/ssm.py", "mocat/src/ssm/nonlinear_gaussian.py", "mocat/src/ssm/linear_gaussian/linear_gaussian.py", "mocat/src/abc/scenarios/linear_gaussian.py"],
  [("density formulas", "mocat/src/utils.py: gaussian_potential, reset_covariance")])
p("C23", "Diagnostics compute their defining formulas",
  "Effective sample size, autocorrelation, squared jumping distance, kernelised Stein discrepancy and the kernels and their derivatives equal their definitions for every input.",
  ["inputs"], "every sample array and weight vector", "Tests use a handful of arrays.",
  ["mocat/src/metrics.py", "mocat/src/kernels.py"], [("formulas", "mocat/src/metrics.py, mocat/src/kernels.py")])
p("C24", "Long runs converge to the target distribution",
  "For every target satisfying the usual conditions, averages over longer and longer runs of any sampler converge to expectations under the target (or its smoothing / ABC posterior).",
  ["inputs", "configurations"], "every target and sampler", "Tests estimate moments for a few targets with loose tolerance.",
  ["mocat/src/mcmc", "mocat/src/transport", "mocat/src/abc", "mocat/src/ssm"], [("algorithms", "mocat/src/**")])
p("C25", "Slicing and chaining records keeps fields aligned and operands intact",
  "For results and any other records (cdict): indexing with an integer, slice, mask or index array gathers the same rows of every array field and of every nested record, and leaves scalars, static summaries and other fields as they are; adding two records appends, field by field and in order, the arrays they have in common (nested records included), adds durations and keeps the first one's other fields; adding None gives a copy. copy, deepcopy, pickling and passing through JAX transformations (tree maps, scan, vmap) keep every field's name, value, shape and type. No such operation alters its operands, not even one that fails (memory, unsuitable shapes), and assigning to a result never changes what it was made from; a deep copy shares nothing with its original.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of slices, gathers, chains, copies, assignments and transformations over every nested record, with operations failing in between",
  "Tests slice and add two small records once; sequences of operations, aliasing and failures are not examined.",
  ["mocat/src/core.py", "mocat/src/sample.py"],
  [("field-wise indexing, chaining and pytree registration", "mocat/src/core.py: cdict, static_cdict")],
  [], ["mocat.cdict operations"])

here = os.path.dirname(os.path.abspath(__file__))
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
