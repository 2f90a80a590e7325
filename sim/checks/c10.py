"""C10: performance records describe what actually happened in the trial."""
import warnings

import numpy as np
import qinfer as q

from .. import shadow, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run is a performance-test trial with a random pair of estimation and true model, whose every simulation, '
        'experiment, update and time step is observed, while the virtual clock is moved by random amounts in each of '
        'them; every field of the record is compared with the observations.')
REAL = ['qinfer.perf_testing', 'qinfer.smc.SMCUpdater', 'models of the zoo']
STUB = ['clock', 'random source', 'experiment heuristic (scripted)']
STATES = 'hash of (pair of models, number of experiments, kind of true parameters)'
RUNS = dict(quick=10000, thorough=150000)
CHUNK = 16

P, T2, S = {'kind': 'precession'}, {'kind': 't2'}, {'kind': 'sim'}
PAIRS = [(s, None) for s in zoo.STATIC + zoo.DRIFTING if s['kind'] not in ('gausshyper', 'multinomial')] + [
    (P, {'kind': 'randomwalk', 'base': P}),
    (P, {'kind': 'grw', 'base': P, 'mode': 'learned'}),
    ({'kind': 'grw', 'base': P, 'mode': 'learned'}, P),
    (T2, {'kind': 'grw', 'base': T2, 'mode': 'learned_dense'}),
    ({'kind': 'grw', 'base': T2, 'mode': 'learned'}, T2),
    (T2, {'kind': 'randomwalk', 'base': T2}),
    (S, {'kind': 'sim', 'kw': {'drift': 0.04}}),
    ({'kind': 'sim', 'kw': {'drift': -0.03}}, S),
    ({'kind': 'sim', 'kw': {'canon': True}}, {'kind': 'sim', 'kw': {'drift': 0.04}}),
    ({'kind': 'binomial', 'base': P}, {'kind': 'binomial', 'base': {'kind': 'randomwalk', 'base': P}}),
    ({'kind': 'mle', 'base': P}, P), ({'kind': 'poisoned', 'base': T2}, T2),
]


def generate(rng, i, tier):
    est, true = PAIRS[i % len(PAIRS)]
    setup = zoo.make(est)
    n_exp = zoo.big(rng, rng.choice([1, 2, 3, 5, 8]), .02, (40, 130, 260, 300))
    c = dict(est=est, true=true, n=rng.choice([10, 20, 50]), mps=rng.choice(['prior', 'prior', 'true_prior', 'row', 'vector']),
             upd=rng.choice([None, None, dict(resample_thresh=0.9), dict(resample_thresh=0.0),
                             dict(zero_weight_policy='skip')]),
             reuse=rng.random() < .2, dts=[round(rng.uniform(0, 50), 3) for _ in range(6)], base=rng.random() < .5,
             q=[rng.choice([1.0, 1.0, 3.0]), rng.choice([1.0, 0.5, 2.0])])
    others = [b for b in (P, T2, {'kind': 'rb'}) if b != est.get('base')]
    if true is None and est['kind'] in ('binomial', 'randomwalk', 'mle', 'poisoned') and rng.random() < .5:
        c['warm'] = dict(est, base=rng.choice(others))
    if n_exp > 100 and rng.random() < .6:
        c['upd'] = dict(resample_thresh=1.0, zero_weight_policy='skip')
    return dict(config=c, ops=[dict(ep=setup.gen(rng)) for _ in range(n_exp)], faults=[])


def run_trial(sc, w, call=None):
    """Runs one trial; returns what it returned and what was observed."""
    c = sc['config']
    est = zoo.make(c['est'])
    true = zoo.make(c['true']) if c['true'] else est
    log = []
    eps_list = [est.eps([op['ep']]) for op in sc['ops']]
    d_sim, d_lik, d_step, d_heur, d_jit, d_pad = c['dts']

    class Spy(type(true.model)):
        def simulate_experiment(self, mps, eps, repeat=1):
            w.advance(d_sim)
            m0 = np.array(mps)
            d = super(Spy, self).simulate_experiment(mps, eps, repeat)
            log.append(('sim', m0, np.array(eps), d, repeat))
            w.advance(d_jit)
            return d

        @property
        def Q(self):
            return super(Spy, self).Q * c['q'][0]

        def update_timestep(self, mps, eps):
            w.advance(d_step)
            m0 = np.array(mps)
            out = super(Spy, self).update_timestep(mps, eps)
            log.append(('step', m0, np.array(eps), np.array(out)))
            return out
    Spy.__name__ = type(true.model).__name__

    class Spy2(type(est.model)):
        def likelihood(self, os, mps, eps):
            w.advance(d_lik)
            return super(Spy2, self).likelihood(os, mps, eps)

        @property
        def Q(self):
            q0 = super(Spy2, self).Q
            return q0 * (c['q'][1] + .25 * np.arange(len(q0)))
    if true is est:
        class Both(Spy2, Spy):
            pass
        est.model.__class__ = Both
    else:
        est.model.__class__ = Spy2
        true.model.__class__ = Spy
    ups = []
    buf = eps_list[0].copy()

    class Heur(object):
        def __init__(self, u):
            self.u, self.k = u, 0
            ups.append(u)
            inner = u.update

            def update(datum, eps, *a, **k):
                e = dict(datum=datum, eps=np.array(eps), t0=w.clock, prior_w=np.array(u.particle_weights),
                         prior_x=np.array(u.particle_locations))
                log.append(('learn', e))
                r = inner(datum, eps, *a, **k)
                e['t1'] = w.clock
                return r
            u.update = update

        def __call__(self):
            if self.k:
                log.append(('after', self.k - 1, np.array(self.u.est_mean()), self.u.resample_count))
            w.advance(d_heur)
            e = eps_list[self.k]
            self.k += 1
            log.append(('heur', e.copy()))
            if c.get('reuse'):
                # the same buffer for every experiment
                buf[...] = e
                return buf
            return e
    if c.get('warm'):
        # An earlier trial, of a model of the same class.
        other = zoo.make(c['warm'])
        if other.model.__class__ in est.model.__class__.__mro__:
            other.model.__class__ = est.model.__class__
        rng, mem = W.clone_rng(len(sc['ops'])), []

        class Short(object):
            def __init__(self, u):
                mem.append(u)

            def __call__(self):
                return other.eps([other.gen(rng)])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                (call or q.perf_test)(other.model, 10, other.prior, 2, Short, extra_updater_args=dict(zero_weight_policy='skip'))
            except AssertionError:
                pass
        del log[:]
    kw = {}
    if c['true']:
        kw['true_model'] = true.model
        kw['true_prior'] = true.prior
    if c['mps'] == 'true_prior':
        kw['true_prior'] = zoo.FixedPrior(true.prior.sample(3)[1:2])
    given = None
    if c['mps'] in ('row', 'vector'):
        given = true.prior.sample(1)
        kw['true_mps'] = given if c['mps'] == 'row' else given[0]
        given = given.copy()
    elif c['mps'] == 'true_prior':
        given = kw['true_prior'].points.copy()
    if c['upd']:
        kw['extra_updater_args'] = c['upd']
    rec = (call or q.perf_test)(est.model, c['n'], est.prior, len(sc['ops']), Heur, **kw)
    log.append(('after', len(sc['ops']) - 1, np.array(ups[0].est_mean()), ups[0].resample_count))
    return rec, log, est, true, given, ups[0]


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    n_exp = len(sc['ops'])
    try:
        rec, log, est, true, given, u = run_trial(sc, w)
    except RuntimeError as e:
        if 'weights are zero' in str(e):
            raise W.Abandon('all weights zero')
        raise
    w.state(str(c['est']), str(c['true']), n_exp, c['mps'])
    sims = [e for e in log if e[0] == 'sim']
    learns = [e[1] for e in log if e[0] == 'learn']
    heurs = [e for e in log if e[0] == 'heur']
    afters = [e for e in log if e[0] == 'after']
    steps = [e for e in log if e[0] == 'step' and e[1].shape[0] == 1]
    if rec.shape != (n_exp,):
        raise Violation('record-shape', str(rec.shape))
    for name, xs in (('simulations', sims), ('updates', learns), ('experiments', heurs)):
        if len(xs) != n_exp:
            raise Violation('wrong-number-of-' + name, '{} expected {}'.format(len(xs), n_exp))
    if len(steps) not in (n_exp, n_exp - 1):
        raise Violation('wrong-number-of-true-steps', '{} expected {}'.format(len(steps), n_exp))
    scalar = isinstance(est.model.expparams_dtype, str)
    Q = np.asarray(est.model.Q)
    cur = given
    for k in range(n_exp):
        what = 'row {}'.format(k)
        row = rec[k]
        _, mps, eps, datum, rep = sims[k]
        h = heurs[k][1]
        if mps.shape != (1, true.model.n_modelparams):
            raise Violation('true-parameters-shape', '{}: {}'.format(what, mps.shape))
        if cur is not None and not np.array_equal(mps, cur):
            raise Violation('true-parameters-wrong', '{}: simulated with {} expected {}'.format(what, mps, cur))
        if not np.array_equal(np.ravel(row['true']), mps[0]):
            raise Violation('record-true', '{}: {} but data simulated with {}'.format(what, row['true'], mps[0]))
        if not shadow.same_value(eps, h) or not shadow.same_value(learns[k]['eps'], h):
            raise Violation('experiment-differs', '{}: proposed {} simulated {} learned {}'.format(
                what, h, eps, learns[k]['eps']))
        if not shadow.same_value(learns[k]['datum'], datum):
            raise Violation('learned-other-datum', '{}: {} {}'.format(what, learns[k]['datum'], datum))
        if int(row['outcome']) != int(datum):
            raise Violation('record-outcome', '{}: {} but {} simulated'.format(what, row['outcome'], datum))
        if scalar:
            if not np.array_equal(np.ravel(row['experiment']), np.ravel(h)):
                raise Violation('record-experiment', '{}: {} {}'.format(what, row['experiment'], h))
        else:
            for f in h.dtype.names:
                if not np.array_equal(np.ravel(row[f]), np.ravel(h[f])):
                    raise Violation('record-experiment', '{}: field {}: {} {}'.format(what, f, row[f], h[f]))
        if k < len(steps):
            if not np.array_equal(steps[k][1], mps) or not shadow.same_value(steps[k][2], h):
                raise Violation('true-step-of-wrong-parameters', what)
            cur = steps[k][3][:, :, 0]
        mean, cnt = afters[k][2], afters[k][3]
        if not np.allclose(np.ravel(row['est']), mean, rtol=1e-12, atol=1e-13):
            raise Violation('record-est', '{}: {} expected {}'.format(what, row['est'], mean))
        if int(row['resample_count']) != cnt:
            raise Violation('record-resample-count', '{}: {} expected {}'.format(what, row['resample_count'], cnt))
        # The loss refers to the true parameters after the step following the experiment.
        m = min(len(mean), len(cur[0]))
        loss = float(np.sum((mean[-m:] - cur[0][-m:]) ** 2 * Q[-m:]))
        loss0 = float(np.sum((mean[-m:] - mps[0][-m:]) ** 2 * Q[-m:]))
        if abs(row['loss'] - loss) > 1e-10 * (1 + loss):
            raise Violation('record-loss', '{}: {} expected {} (or {} without time step)'.format(
                what, row['loss'], loss, loss0))
        dt = learns[k]['t1'] - learns[k]['t0']
        if abs(row['elapsed_time'] - dt) > 1e-5:
            raise Violation('record-elapsed-time', '{}: {} expected {}'.format(what, row['elapsed_time'], dt))
        # The estimation model learned: exact Bayes update of the weights it had.
        w.log(what, np.asarray(row['est']), np.asarray(row['loss']), np.asarray(row['elapsed_time']))
    if [str(x) for x in np.ravel(u.data_record)] != [str(x) for x in np.ravel([s[3] for s in sims])] and \
            not 'zero_weight_policy' in (c['upd'] or {}):
        raise Violation('data-record', '')
