#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = 'src/qinfer/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Every accepted observation is applied as exactly one Bayes update',
 "After any history of observations (one at a time or batched), queries, forced and automatic resampling and resets, each accepted observation multiplies every particle's weight by the model's likelihood of that observation at that particle and renormalises to one, without moving particles other than by the model's own time step. "
 "The recorded normalisation equals the prior-predictive probability of the datum, the total log-likelihood is the sum of their logarithms, the data record lists the outcomes as given and in order, whatever the caller does with its arrays afterwards, and the recorded minimum effective sample size is the smallest one reached after any update. "
 "A batch of observations is equivalent to giving its elements one by one, checking for resampling only after every given number of them.",
 ['histories', 'inputs', 'configurations'],
 'All interleavings of update / batch update / hypothetical query / resample / reset, for every model family, particle count and resampling configuration.',
 'The tests run a handful of fixed single-model histories and look only at the final estimate; they cannot cover interleavings of updates, queries, resampling and resets, nor degenerate weights.',
 ['smc.py', 'distributions.py'],
 [('hypothetical weights and normalisation', 'smc.py:SMCUpdater.hypothetical_update'), ('committing an update', 'smc.py:SMCUpdater.update'), ('batches', 'smc.py:SMCUpdater.batch_update')],
 [('weights and locations', 'the posterior', 'smc.py:SMCUpdater'), ('records', 'data, normalisation, min ESS', 'smc.py:SMCUpdater')],
 ['particle weights', 'particle locations', 'normalization record', 'log total likelihood', 'data record', 'min_n_ess'])

prop('C02', 'Queries about a posterior are correct and leave it untouched',
 "At every posterior reachable by updates and resampling, asking for hypothetical posteriors, Bayes risk, expected information gain, means, covariances, entropy, samples or credible regions changes no particle, weight or record, and repeating a deterministic query gives the same answer. "
 "The hypothetical posterior, Bayes risk (prior-predictive average of the posterior variance weighted by the model's scale) and expected information gain (prior-predictive average of the relative entropy from the current to the hypothetical posterior) equal their definitions computed by enumerating all outcomes, and are finite even when an outcome or a particle is impossible, for several experiments at once and for experiments with different outcome counts.",
 ['histories', 'inputs'],
 'All posteriors reachable by a history (including zero and near-degenerate weights), all experiments and outcomes queried at any point of it.',
 'Tests query freshly initialised posteriors of one or two models; impossible outcomes, ruled-out particles and mixed outcome counts are not reached.',
 ['smc.py', 'distributions.py'],
 [('hypothetical update', 'smc.py:SMCUpdater.hypothetical_update'), ('risk', 'smc.py:SMCUpdater.bayes_risk'), ('information gain', 'smc.py:SMCUpdater.expected_information_gain'), ('moments', 'distributions.py:ParticleDistribution')],
 observe=['return values', 'particle weights and locations before and after'])

prop('C03', 'A failed update leaves the posterior as it was, and can be retried',
 "If the model (or the cluster evaluating it) raises while an observation is being applied, the exception reaches the caller and the particles, weights, data record, normalisation record, effective-sample-size record and resampling count are exactly as before the call. The same holds if the prior or the model raises during a reset, whether called for or made by the zero-weight policy. "
 "Giving the same observation again once the fault is gone leads to exactly the posterior of a run that never failed; if only the resampling step following the update fails, then the update is applied once, no resampling is counted, and resampling can be retried.",
 ['fault_sequences', 'crash_points', 'histories'],
 'All points of an update at which an evaluation, time step or resampling attempt can fail, at any point in any history, any number of times.',
 'No test makes a model fail; the order of the individual assignments within an update only matters if one does.',
 ['smc.py', 'parallel.py'],
 [('order of evaluation and commit', 'smc.py:SMCUpdater.update'), ('resampling commit', 'smc.py:SMCUpdater.resample')],
 observe=['all public updater state before and after a failing call', 'state after retry vs fault-free twin'])

prop('C04', 'Impossible data is handled exactly as the chosen zero-weight policy says',
 "If an observation makes the total weight of all particles (numerically) zero, then: with 'error' a RuntimeError is raised and the posterior is unchanged; with 'skip' the posterior is unchanged; with 'reset' a warning is given and the posterior becomes a fresh equally weighted draw from the prior; with 'warn' and 'ignore' the update proceeds with the all-zero weights, with and without a warning respectively. "
 "Otherwise the policy has no influence on the update, and after a skip, error or reset the updater continues to learn normally from later data.",
 ['histories', 'inputs', 'configurations'],
 'All policies and thresholds, and every position in a history at which impossible, nearly impossible or merely unlikely data arrive.',
 'No test covers any policy, nor what happens on the updates after it fires.',
 ['smc.py'],
 [('zero weight branch', 'smc.py:SMCUpdater.update'), ('reset', 'smc.py:SMCUpdater.reset')],
 observe=['exceptions', 'warnings', 'weights', 'locations'])

prop('C05', 'Resampling happens exactly when due and yields a valid equal-weight cloud',
 "After an update that is allowed to resample, a resampling step is performed if and only if the effective sample size is below the given fraction of the particle count, and the resampling counter counts exactly the steps performed. "
 "Each step leaves the configured number of equally weighted finite particles, all valid under the model (unless a warning says that this could not be achieved) and in canonical form if canonicalisation is enabled; changing particles and weights only through such steps, updates and resets.",
 ['histories', 'inputs', 'configurations', 'fault_sequences'],
 'All histories, thresholds, particle counts, models with arbitrary valid regions and canonical forms, and all values the random source may return, including the extremes.',
 'Tests check one resampling of well-behaved particles; trigger conditions, counters, validity warnings and extreme random values are not exercised.',
 ['smc.py', 'resamplers.py'],
 [('trigger', 'smc.py:SMCUpdater._maybe_resample'), ('step', 'smc.py:SMCUpdater.resample'), ('postselection', 'resamplers.py:LiuWestResampler.__call__')],
 [('resample_count, just_resampled', 'bookkeeping', 'smc.py:SMCUpdater')],
 ['n_ess', 'resample_count', 'just_resampled', 'particle weights', 'validity', 'warnings'])

prop('C06', 'Resampling draws from the smoothed posterior and preserves its moments',
 "Each resampled particle is an ancestor, chosen with probability equal to its weight and shrunk towards the posterior mean by the smoothing parameter, plus noise with the posterior's covariance scaled to compensate, so that mean and covariance are preserved in expectation. "
 "When an invalid draw is rejected, only the noise is redrawn around the same particle's own centre, however many rounds of rejection it takes; explicitly given moments, particle counts and noise sources are honoured.",
 ['inputs', 'configurations', 'schedules'],
 'All weight vectors, clouds, smoothing parameters, valid regions and sequences of values returned by the random source.',
 'Tests compare only means and covariances of unconstrained normal clouds to one digit, which rejection rounds, skewed weights and given moments do not enter.',
 ['resamplers.py'],
 [('ancestor choice and kernel', 'resamplers.py:LiuWestResampler.__call__')],
 observe=['resampled locations as a function of the injected noise', 'moments'])

prop('C07', 'Distributing a model over engines never changes its answers',
 "For every number of engines, particle count, serial threshold and order or timing in which engines finish, likelihoods evaluated through a parallelised model equal those of the serial model, in the same particle order and shape, and simulated data has the same shape and distribution and is computed for the right particle and experiment. "
 "At or below the threshold no work is sent to engines; above it every particle is evaluated exactly once; the engines receive the caller's current outcomes, particles and experiments, and inference through the parallelised model gives the same posterior as serial inference.",
 ['schedules', 'configurations', 'inputs'],
 'All engine counts (including more engines than particles), thresholds, execution orders, delays and duplicate executions, and model families.',
 'The parallel tests need a live cluster and are skipped; a live cluster would show only one engine count and schedule.',
 ['parallel.py'],
 [('likelihood distribution', 'parallel.py:DirectViewParallelizedModel.likelihood'), ('simulation distribution', 'parallel.py:DirectViewParallelizedModel.simulate_experiment')],
 observe=['likelihood tensors', 'simulated data', 'tasks received by engines'])

prop('C08', 'Engine failures surface as errors, never as wrong answers; models restart',
 "If an engine crashes, a task fails, a result is lost or times out, or engines join or leave while work is in flight, the evaluation either raises or returns exactly the serial answer. "
 "Afterwards the same model works again on the remaining engines, clearing caches never raises because of the cluster, and a model pickled and restored (as on an engine or after a restart) keeps all of its settings, evaluates serially up to its threshold, and refuses larger work with a clear error instead of hanging or returning wrong data.",
 ['fault_sequences', 'crash_points', 'schedules'],
 'All sequences of engine crashes, task failures, lost results, joins and leaves at any point of any evaluation, and pickling at any point.',
 'There is no test with a failing engine, and none of pickling the parallelised model.',
 ['parallel.py'],
 [('map over engines', 'parallel.py:DirectViewParallelizedModel.likelihood'), ('pickled state', 'parallel.py:DirectViewParallelizedModel.__getstate__'), ('cache clearing', 'parallel.py:DirectViewParallelizedModel.clear_cache')],
 observe=['exceptions', 'likelihood tensors', 'settings after unpickling'])

prop('C09', 'Multi-trial performance tests isolate trials and report exactly the failures',
 "Whatever the order in which trials finish and whichever of them fail, row i of the result is the record of trial i: with failures allowed, exactly the failed trials are masked and all other rows hold their own data; with failures not allowed, the first failing trial's exception propagates. "
 "In every case, including interrupts and errors while reporting progress, the numerical error handling policy is as it was before the call and a started progress display is finished; divisions by zero inside a trial count as failures.",
 ['schedules', 'fault_sequences'],
 'All completion orders of asynchronous trials, all subsets of failing trials and kinds of exception, serial and parallel dispatch.',
 'The tests run a few trials serially with no failures at all, or with all of them failing.',
 ['perf_testing.py'],
 [('dispatch and collection', 'perf_testing.py:perf_test_multiple'), ('error policy', 'perf_testing.py:numpy_err_policy')],
 observe=['performance array and mask', 'np.geterr()', 'progress bar calls', 'exceptions'])

prop('C10', 'Performance records describe what actually happened in the trial',
 "Row k of a performance record holds the true parameters at the time of experiment k, the outcome simulated from them, the experiment performed, the posterior mean after learning from it, the quadratic loss between the two under the model's scale, the resampling count so far, and the time that learning took. "
 "The data is simulated from the true model and learned with the estimation model, with true parameters evolving by the true model's time step, for static and drifting true models, models of different sizes and scalar or record experiments.",
 ['histories', 'schedules', 'configurations'],
 'All true/estimation model pairs, heuristics, priors, clock behaviours and outcome sequences.',
 'Tests check only the shape and type of the record and that losses are finite.',
 ['perf_testing.py'],
 [('trial loop', 'perf_testing.py:perf_test'), ('alignment', 'perf_testing.py:shorten_right'), ('timing', 'perf_testing.py:timing')],
 observe=['performance record vs the calls seen by the true model, estimation model, heuristic and clock'])

prop('C11', 'A seeded run is exactly repeatable',
 "With the global random source seeded and the same inputs, any sequence of inference, simulation, design, sampling and performance testing produces bit-for-bit the same results in every process. "
 "In particular nothing depends on uninitialised memory, hash ordering, object identity, the clock, or on state left behind by previous use of other instances.",
 ['histories', 'schedules', 'configurations'],
 'All programs composed of library operations, all contents of uninitialised memory, hash seeds and clock values.',
 'Tests run once per process; a dependence on uninitialised memory or the hash seed shows up there only as rare flakiness.',
 ['smc.py', 'derived_models.py', 'abstract_model.py', 'distributions.py', 'resamplers.py', 'perf_testing.py'],
 [('use of the global random source', 'abstract_model.py:FiniteOutcomeModel.simulate_experiment'), ('preallocated arrays', 'derived_models.py:MultinomialModel.simulate_experiment')],
 observe=['results of twin runs'])

prop('C12', 'Simulated data follow the model\'s own likelihood',
 "Simulated outcomes always lie in the outcome domain of their experiment, never have zero probability whatever values the random source returns, and are distributed as the model's likelihood for exactly the given particle and experiment, with all repetitions, particles and experiments independent. "
 "The result is indexed by repetition, particle and experiment, and is a scalar when there is just one of each.",
 ['inputs', 'histories', 'configurations'],
 'All finite- and continuous-outcome models and decorations of them, all batch shapes and all values of the random source including its extremes.',
 'Tests check shapes and types of simulated data, but not which distribution it has, its independence, or the extremes of the random source.',
 ['abstract_model.py', 'derived_models.py'],
 [('inverse-cdf sampling', 'abstract_model.py:FiniteOutcomeModel.simulate_experiment'), ('decorated sampling', 'derived_models.py:BinomialModel.simulate_experiment')],
 observe=['simulated data'])

prop('C13', 'Distributions only return samples from their support, of the declared shape',
 "Whatever values the random source returns, every sample of every distribution is finite, has one row per requested sample and one column per random variable, and lies in the support the distribution declares (ranges, simplex, physical states, given totals, valid models, the particles with non-zero weight), with the frequencies it declares. "
 "Postselected distributions return only valid samples or raise an error after their iteration limit, and never return unfilled entries.",
 ['inputs', 'fault_sequences', 'configurations'],
 'All distributions and compositions of them, sample counts, and values of the random source including its extremes.',
 'Tests draw from each distribution with one seed; the extremes of the random source and rejection limits are practically never drawn.',
 ['distributions.py', 'tomography/distributions.py'],
 [('sampling', 'distributions.py:ParticleDistribution.sample'), ('postselection', 'distributions.py:PostselectedDistribution.sample'), ('inverse cdf', 'distributions.py:InterpolatedUnivariateDistribution.sample')],
 observe=['samples', 'exceptions'])

prop('C14', 'Inference interrupted at any point resumes exactly from a checkpoint',
 "An updater, together with its model, prior and resampler, that is pickled at any point of a run and restored in a new process continues exactly as the original would have: the same posterior, records and counters, and, from the same state of the random source, the same results of every later operation. "
 "Taking a checkpoint does not disturb the running inference, and a restored updater shares no state with the original.",
 ['crash_points', 'histories'],
 'Every point between operations of any history as crash point, any number of crashes.',
 'Tests never pickle an updater, and only a few of the models.',
 ['smc.py', 'distributions.py', 'derived_models.py', 'resamplers.py'],
 [('picklable distributions', 'distributions.py:scipy_dist'), ('updater state', 'smc.py:SMCUpdater')],
 observe=['state and later results of the restored twin'])

prop('C15', 'Experiment design keeps the best design found so far for each experiment',
 "Over any sequence of guesses for one experiment, a design with guess storage returns the design with the lowest objective among all optimised guesses since the last reset, and the objective is the Bayes risk plus the scaled cost of the experiment (or times a power of it). "
 "Only the requested field is varied, local optimisation never returns a worse design than the guess it started from, the guess passed in and the updater are not modified, and designs returned earlier do not change later.",
 ['histories', 'inputs', 'configurations'],
 'All sequences of guesses, optimisers, cost scalings and resets, at any posterior.',
 'The tests check a single design against a loose bound; the stored-guess history is never exercised.',
 ['expdesign.py'],
 [('objective and comparison', 'expdesign.py:ExperimentDesigner.design_expparams_field')],
 observe=['returned designs', 'objective at returned designs', 'guesses and updater before and after'])

prop('C16', 'Heuristics always propose well-formed experiments from the current posterior',
 "The particle guess heuristic proposes an inversion at one particle of the current posterior and a time that is the inverse of its distance to another, distinct one, raising an error after its attempt limit rather than dividing by zero; the exponentially sparse heuristic's time is its scale times its base to the power of the number of data so far. "
 "An ensemble heuristic picks each member with its probability and returns that member's proposal; in all cases further fields have the values given for them.",
 ['histories', 'inputs', 'configurations'],
 'All posteriors reachable by a history including collapsed ones, all parameters, and all choices of the random source.',
 'Tests run heuristics once on fresh priors, so collapsed posteriors, attempt limits and the dependence on the history are not reached.',
 ['expdesign.py'],
 [('particle guess', 'expdesign.py:PGH.__call__'), ('sparse times', 'expdesign.py:ExpSparseHeuristic.__call__'), ('ensemble', 'expdesign.py:EnsembleHeuristic.__call__')],
 observe=['proposed experiments', 'exceptions'])

prop('C17', 'Likelihood and simulation counters count exactly the work requested',
 "At every point of any history, a model's likelihood counter has advanced by the product of the numbers of outcomes, particles and experiments of each likelihood call made to it, and its simulation counter by the product of repetitions, particles and experiments of each simulation requested from it. "
 "This holds at every layer of any stack of decorated models, also for parallelised models, failed calls aside (an adaptively estimated likelihood reports its simulator's count), and both never decrease.",
 ['histories', 'configurations'],
 'All call sequences and batch shapes, and all stacks of decorators.',
 'Tests check counters after a single call for a few models and not for repetitions or stacks.',
 ['abstract_model.py', 'derived_models.py', 'parallel.py'],
 [('counting', 'abstract_model.py:Model.likelihood'), ('counting', 'abstract_model.py:Simulatable.simulate_experiment')],
 observe=['call_count', 'sim_count'])

prop('C18', 'Data ingestion gives the same estimate for every format, or fails loudly',
 "The simple estimation functions give the same estimate for the same data whether given as a scalar array, a record array, a data frame, a text file name or an open stream, for any number of rows including one, and it equals that of running the inference by hand with the documented prior and model. "
 "If reading fails or a row of the text is incomplete or malformed, an exception is raised rather than an estimate from partial data; the input data is never modified.",
 ['inputs', 'fault_sequences'],
 'All data sets, all input formats, all ways in which a stream delivers its data and all points at which it can fail.',
 'Tests cover one data set per format with many rows and no reading faults.',
 ['simple_est.py'],
 [('loading', 'simple_est.py:load_data_or_txt'), ('column selection', 'simple_est.py:data_to_params'), ('estimation', 'simple_est.py:do_update')],
 observe=['estimates', 'exceptions', 'posterior support'])

prop('C19', 'Saved configuration survives crashes and I/O errors',
 "After a successful save, reading returns exactly what was saved (by one of them, if several processes save at once), or raises if the file cannot be read; reading when nothing was saved returns an empty configuration. "
 "If saving is interrupted by a crash, an I/O error, a full disk or a short write at any point, then reading afterwards returns either the complete previous or the complete new configuration, and an error that is not a crash is reported to the caller.",
 ['crash_points', 'fault_sequences', 'histories'],
 'Every file system operation of a save as crash point or failing operation, over sequences of saves and reads.',
 'There is no test of the configuration at all.',
 ['config.py'],
 [('writing', 'config.py:save_config'), ('reading', 'config.py:read_config'), ('directory', 'config.py:ensuredir')],
 [('configuration file', 'the only durable state of the library', 'config.py:preffilename')],
 ['file contents after crash', 'exceptions'])

prop('C20', 'Time-dependent models take exactly one time step per accepted update',
 "For models with time-dependent parameters every accepted observation moves every particle by exactly one step of the model for the experiment just performed, after its likelihood was evaluated at the old position; rejected or merely hypothetical observations move nothing. "
 "Random-walk models add zero-mean steps that are independent between particles and have the declared distribution (fixed or per-particle learned, diagonal or dense covariance, scaled by the experiment, in transformed coordinates if given), and leave all other parameters alone.",
 ['histories', 'configurations'],
 'All histories of accepted, rejected and hypothetical observations, all random-walk configurations and experiments.',
 'Tests check a single time step\'s shape and some variances to one digit.',
 ['smc.py', 'derived_models.py'],
 [('one step per update', 'smc.py:SMCUpdater.update'), ('steps', 'derived_models.py:GaussianRandomWalkModel.update_timestep'), ('steps', 'derived_models.py:RandomWalkModel.update_timestep')],
 observe=['particle locations before and after', 'time step calls'])

prop('C21', 'Mixed approximate inference evaluates each particle by exactly one model',
 "In every update with a good and an approximate model each particle's likelihood comes from exactly one of the two, for its own parameters; no particle evaluated approximately is heavier than one evaluated well, every particle at or above the weight threshold and at least the requested fraction of the total weight and minimum number are evaluated well. "
 "With a mixture ratio of one, or identical models, the posterior equals that of ordinary inference with the good model, and no choice of ratio, threshold or minimum number makes an update fail.",
 ['histories', 'inputs', 'configurations'],
 'All weight distributions reachable in a history, mixture ratios, thresholds and minimum counts.',
 'The class is tested with one configuration, if at all; the assignment of particles to models is not observed.',
 ['smc.py'],
 [('partition', 'smc.py:MixedApproximateSMCUpdater.hypothetical_update')],
 observe=['parameters seen by either model', 'weights'])

prop('C22', 'Adaptive likelihood estimates use every sample once and meet their tolerance',
 "The estimated likelihood of an outcome equals the hedged frequency of that outcome among all samples drawn from the simulator for that particle and experiment, of which there are at least the minimum number and then whole steps more. "
 "Sampling continues exactly until the estimated error is below the tolerance for every particle and experiment, so that estimation terminates; the estimates of complementary outcomes sum to one.",
 ['inputs', 'schedules', 'configurations'],
 'All simulators and sequences of simulated outcomes, tolerances, minimum counts, steps and hedging parameters, and batch shapes.',
 'Tests compare one estimate with the true likelihood to low precision with equal minimum and step sizes, for which the accounting cannot go wrong.',
 ['ale.py'],
 [('sampling loop', 'ale.py:ALEApproximateModel.likelihood')],
 observe=['estimates', 'samples requested from the simulator'])

prop('C23', 'Bayesian information is accumulated exactly once per accepted update',
 "A bound-tracking updater's information matrix always equals its initial value plus, for every accepted update, the prior-averaged Fisher information of the experiment performed; the adaptive one adds instead the average over the posterior just before that update. "
 "Failed updates add nothing, the initial matrix passed in and matrices returned to the caller are never shared with the updater, and inference itself is the same as without bound tracking, for all updater options.",
 ['histories', 'fault_sequences', 'configurations'],
 'All histories of updates, failures and queries, all initial matrices and updater options.',
 'Tests perform one or two updates with default options and never fail one.',
 ['smc.py'],
 [('accumulation', 'smc.py:SMCUpdaterBCRB.update')],
 observe=['current and adaptive information matrices', 'posterior'])

prop('C24', 'Decorated models perturb only what they declare',
 "A poisoned model's likelihoods are the underlying ones plus independent zero-mean normal noise of exactly the declared size, clipped to [0, 1], an amplified model's likelihoods are the underlying ones to the given power, those of a binomial or multinomial model the binomial or multinomial law of the underlying ones, however improbable, and random-walk decorations leave likelihoods unchanged; data simulated from them follow the undisturbed underlying model. "
 "No decorated model ever modifies the arrays owned by the model it decorates or by the caller, and every decoration reports its underlying model's domain, outcome counts and whether these are constant, parameter names, validity, canonical form and time step unless it declares its own.",
 ['histories', 'inputs', 'configurations'],
 'All stacks of decorators over all models, all call sequences and batch shapes.',
 'Tests check shapes of single decorators on one model; stacking, aliasing and noise distributions are not covered.',
 ['derived_models.py'],
 [('passthroughs', 'derived_models.py:DerivedModel'), ('noise', 'derived_models.py:PoisonedModel.likelihood')],
 observe=['likelihoods', 'simulated data', 'arrays before and after'])

prop('C25', 'Tomography only ever holds physical states and proposes valid measurements',
 "Through any history of sampling, updating, resampling and drift of a quantum state or channel, every particle is a Hermitian, positive semidefinite operator, of unit trace unless subnormalised states are allowed, up to numerical precision; repairing an unphysical state sets only its negative eigenvalues to zero and leaves physical states as they are. "
 "Every proposed measurement is a valid effect (eigenvalues within [0, 1]; for channels, the product of a prepared state and an effect) in the model's representation, its likelihoods equal the Born rule, and the best-of-k choice returns the candidate with the largest posterior variance of its outcome, whatever further parameters and fields the model has.",
 ['histories', 'inputs', 'configurations'],
 'All histories, bases, dimensions, fiducial distributions, heuristics and values of the random source.',
 'The tomography tests check single samples and basis conversions; no inference run is checked for physicality.',
 ['tomography/models.py', 'tomography/distributions.py', 'tomography/expdesign.py'],
 [('truncation', 'tomography/models.py:TomographyModel.canonicalize'), ('drift', 'tomography/models.py:DiffusiveTomographyModel.update_timestep'), ('measurements', 'tomography/expdesign.py:StateTomographyHeuristic')],
 observe=['eigenvalues and trace of particles', 'proposed measurements', 'likelihoods'])

prop('C26', 'Posterior summaries are correct at every reachable posterior',
 "At every posterior reachable by a history, the reported mean, covariance, correlation, function averages, entropy, effective sample size, moments of clusters and marginal and joint densities equal their definitions from the weighted particles. "
 "A credible region of a given level always consists of the heaviest particles with total weight at least that level and no more particles than needed, the rest being reported as outside without loss or duplication; every particle of the region is inside the hull and ellipsoid estimated from it, and random samples are particles drawn in proportion to weight.",
 ['histories', 'inputs'],
 'All posteriors reachable by updates and resampling, all levels and parameter slices.',
 'Region tests use one fixed synthetic cloud with generic weights; ties, zero weights and exact levels are not reached.',
 ['distributions.py'],
 [('moments', 'distributions.py:ParticleDistribution.particle_covariance_mtx'), ('regions', 'distributions.py:ParticleDistribution.est_credible_region')],
 observe=['summaries'])

prop('C27', 'Likelihood formulae and score/Fisher information of the concrete models',
 "Each concrete model's likelihoods are normalised over its domain and equal the documented closed form, and its score and Fisher information are the derivatives of it.",
 ['inputs'], 'All model parameters, experiments and outcomes.',
 'Tests sample a handful of points.',
 ['test_models.py', 'rb.py', 'score.py'],
 [('closed forms', 'test_models.py')], observe=['likelihood values'])
prop('C28', 'Domain algebra, metrics and numerical utilities are mathematically correct',
 "Domain enumeration and membership, distances, enclosing ellipsoids, simplex and basis conversions and formatting return the mathematically defined result for every input.",
 ['inputs'], 'All arguments of these pure functions.',
 'Tests sample a handful of points.',
 ['domains.py', 'metrics.py', 'utils.py', 'tomography/bases.py'],
 [('pure functions', 'utils.py')], observe=['return values'])
prop('C29', 'The accelerated precession model agrees with the reference implementation',
 "Likelihoods computed on an OpenCL device equal those of the reference precession model to single precision.",
 ['inputs', 'configurations'], 'All inputs and devices.',
 'Needs an OpenCL device, so its test is skipped.',
 ['gpu_models.py'], [('kernel', 'gpu_models.py:AcceleratedPrecessionModel.likelihood')], observe=['likelihood values'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
for p in P:
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
print(len(P))
