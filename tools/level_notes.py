T = ('Seeded search over simulated runs, not exhaustive: the property held in every run explored, each exactly '
     'replayable from its seed. Trusts NumPy/SciPy and the independent reference computation of the check. ')
NOTES.update({
 'C01': T + 'Oracle: an independent weighted-particle filter advanced in lock step with the updater.',
 'C02': T + 'Oracle: enumeration over all outcomes using the model likelihood, and whole-state comparison.',
 'C03': T + 'Oracle: an identically seeded never-failing updater and the state before each failed call, bit for bit.',
 'C04': T + 'Oracle: reference filter with the documented five policies.',
 'C05': T + 'Oracle: reference decision from the effective sample size, plus inspection of every resampled cloud.',
 'C06': T + 'Oracle: the published Liu-West step with scripted noise and rejection; moments and frequencies by '
        'statistical tests with false-alarm probability below 1e-11.',
 'C07': T + 'The ipyparallel view, engines and network are simulated (serialisation and partitioning code are real).',
 'C08': T + 'The ipyparallel view, engines and network are simulated (serialisation and partitioning code are real).',
 'C10': T + 'Oracle: the observed simulations, experiments, updates and virtual time of the trial itself.',
})
NOTES.update({
 'C09': T + 'Oracle: each trial run alone from the same random state, and the failures actually injected.',
 'C11': T + 'Oracle: a second execution in a fresh process, compared bit for bit after every operation.',
 'C12': T + 'Oracle: the likelihood of the same model; frequencies by exact or chi-square tests with false-alarm probability below 1e-11.',
 'C13': T + 'Oracle: independent closed-form supports, shapes and cumulative distributions; Kolmogorov-Smirnov and moment tests with '
        'false-alarm probability below 1e-11.',
 'C14': T + 'Oracle: the uninterrupted execution in its own process, compared bit for bit after every operation.',
 'C15': T + 'Oracle: all risk values actually evaluated for the experiment, noted at the model and the updater.',
 'C16': T + 'Oracle: the documented form of each heuristic computed from the posterior at the call; distributions of proposals tested '
        'with false-alarm probability below 1e-11.',
 'C17': T + 'Oracle: an instrumented layer below every counter that notes the work requested of it.',
 'C18': T + 'Oracle: the estimate from the in-memory array with the same random state; the reference filter; the failures injected.',
 'C19': 'Every file system operation of a save is failed, torn, interrupted and crashed in turn, within histories chosen by seed. '
        'The simulated disk models POSIX rename, loss of unsynced data and torn writes; it is not a real file system.',
 'C20': T + 'Oracle: a reference filter that advances noted particles by noted steps; step laws by statistical tests with '
        'false-alarm probability below 1e-11.',
 'C21': T + 'Oracle: both models note which particles they evaluate; the documented thresholding rule.',
 'C22': T + 'Oracle: every sample drawn by the simulator is noted and the estimate recomputed from all of them.',
 'C23': T + 'Oracle: the Fisher information of the prior samples and of the particles just before each accepted update.',
 'C24': T + 'Oracle: the undecorated model; noise laws by statistical tests with false-alarm probability below 1e-11.',
 'C25': T + 'Oracle: eigendecomposition and Born rule computed independently from the basis operators.',
 'C26': T + 'Oracle: definitions computed directly from the weighted particles.',
})
