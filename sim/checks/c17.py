"""C17: likelihood and simulation counters count exactly the work requested."""
import pickle
import warnings

import numpy as np
import qinfer as q
from qinfer.ale import ALEApproximateModel

from .. import cluster, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run builds a stack of decorated models, each layer instrumented to note the calls made to it, and drives it through '
        'direct calls, inference, queries, simulation, design, performance tests, pickling and failures; every counter of '
        'every layer is compared with the notes after every operation.')
REAL = ['qinfer.abstract_model', 'qinfer.derived_models', 'qinfer.test_models', 'qinfer.parallel', 'qinfer.ale', 'qinfer.smc',
        'qinfer.perf_testing', 'qinfer.tomography.models']
STUB = ['ipyparallel cluster', 'model failures', 'random source', 'uninitialised memory']
STATES = 'hash of (stack, operation, sizes)'
RUNS = dict(quick=10000, thorough=300000)
CHUNK = 8
NEEDS_OPS = False

P, INV, T2, NC = {'kind': 'precession'}, {'kind': 'inversion'}, {'kind': 't2'}, {'kind': 'noisycoin'}


def _ale(spec):
    b = zoo.make(spec['base'])
    m = ALEApproximateModel(b.model, error_tol=.2, min_samp=5, samp_step=5)
    return zoo.Setup(m, b.prior, b._eps, b.gen, b.ref, (b.tags - {'finite'}) | {'noisy'})


def _diffbin(spec):
    b = zoo.make(spec['base'])
    m = q.DifferentiableBinomialModel(b.model)
    s = zoo.make({'kind': 'binomial', 'base': spec['base']})
    return zoo.Setup(m, s.prior, s._eps, s.gen, s.ref, s.tags)


zoo.KINDS['ale'] = _ale
zoo.KINDS['diffbinomial'] = _diffbin
SPECS = zoo.STATIC + zoo.DRIFTING + [
    {'kind': 'mle', 'base': P}, {'kind': 'mle', 'base': {'kind': 'binomial', 'base': P}},
    {'kind': 'poisoned', 'base': P}, {'kind': 'poisoned', 'base': INV, 'kw': {'n_samples': 30}},
    {'kind': 'poisoned', 'base': {'kind': 'ale', 'base': INV}}, {'kind': 'ale', 'base': P}, {'kind': 'ale', 'base': {'kind': 'randomwalk', 'base': P}},
    {'kind': 'mle', 'base': {'kind': 'poisoned', 'base': {'kind': 'randomwalk', 'base': P}}},
    {'kind': 'randomwalk', 'base': {'kind': 'binomial', 'base': P}}, {'kind': 'grw', 'base': {'kind': 'binomial', 'base': P}},
    {'kind': 'binomial', 'base': {'kind': 'grw', 'base': INV}}, {'kind': 'diffbinomial', 'base': P}, {'kind': 'diffbinomial', 'base': INV},
    {'kind': 'tomo', 'dim': 3}, {'kind': 'mle', 'base': {'kind': 'sim', 'kw': {'varying': True}}},
    {'kind': 'mle', 'base': {'kind': 'mle', 'base': {'kind': 'mle', 'base': P, 'pow': 1.0}, 'pow': 1.0}}]
UNCOUNTED = ('UnknownT2Model', 'NoisyCoinModel')


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    setup = zoo.make(spec)
    cfg = dict(model=spec, n=rng.choice([1, 3, 10, 24]), thresh=rng.choice([.3, .8, 1.0]))
    if rng.random() < .25 and 'coin' not in str(spec) and 'ale' not in str(spec):
        cfg['engines'] = rng.randrange(1, 5)
        cfg['threshold'] = rng.choice([0, 2, 10, 30])
        cfg['above'] = rng.random() < .5
    ops = []
    for _ in range(rng.randrange(2, 10)):
        op = dict(op=rng.choice(['L', 'L', 'L', 'sim', 'sim', 'sim', 'upd', 'upd', 'batch', 'query', 'step', 'pickle', 'misc', 'perf', 'fail']),
                  eps=[setup.gen(rng) for _ in range(rng.choice([1, 1, 2, 5]))], mp=rng.choice([1, 1, 2, 6, 12, 31]), reps=zoo.big(rng, rng.choice([1, 1, 2, 9]), .005, (300, 70000)),
                  no=rng.choice([1, 1, 2, 3]), u=round(rng.random(), 6), layer=rng.randrange(4), how=rng.choice(['array', 'scalar', 'flat']))
        if rng.random() < .01:
            op.update(op='huge', calls=[[rng.choice([1, 64, 1000]), rng.choice([1, 2 ** 16, 10 ** 6]), rng.choice([1, 64, 300]), rng.choice([1, 50])] for _ in range(3)])
        ops.append(op)
    return dict(config=cfg, ops=ops, faults=[])


class Instant(zoo.SimModel):
    """Answers at once, however much it is asked for."""
    def likelihood(self, outcomes, modelparams, expparams):
        q.FiniteOutcomeModel.likelihood(self, outcomes, modelparams, expparams)
        return np.broadcast_to(.5, (len(outcomes), len(modelparams), len(expparams)))

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        q.Simulatable.simulate_experiment(self, modelparams, expparams, repeat)
        return np.broadcast_to(0, (repeat, len(modelparams), len(expparams)))


def huge(op):
    m = Instant()
    e0 = np.zeros(1, dtype=m.expparams_dtype)
    n = s = 0
    for no, mp, ne, rep in op['calls']:
        os, mps, eps = np.broadcast_to(0, (no,)), np.broadcast_to(.1, (mp, 2)), np.broadcast_to(e0, (ne,))
        m.likelihood(os, mps, eps)
        m.simulate_experiment(mps, eps, repeat=rep)
        n, s = n + no * mp * ne, s + mp * ne * rep
        if m.call_count != n or m.sim_count != s:
            raise Violation('large-counts', '{} {} expected {} {}'.format(m.call_count, m.sim_count, n, s))


class Log(object):
    def __init__(self):
        self.L, self.S = 0, 0
        self.failed = False
        self.boom = None

    def __reduce__(self):
        return Log, ()


def _revive(cls, state):
    m = cls.__new__(cls)
    if hasattr(m, '__setstate__'):
        m.__setstate__(state)
    else:
        m.__dict__.update(state)
    return m


def watch(model, log):
    cls = type(model)

    class Watched(cls):
        def likelihood(self, outcomes, modelparams, expparams):
            if log.boom == 'L':
                log.boom = None
                log.failed = True
                raise W.SimFault('injected')
            n = int(np.prod(np.shape(outcomes)[:1])) * modelparams.shape[0] * expparams.shape[0]
            try:
                out = super(Watched, self).likelihood(outcomes, modelparams, expparams)
            except BaseException:
                log.failed = True
                raise
            log.L += n
            return out

        def simulate_experiment(self, modelparams, expparams, repeat=1, **kw):
            if log.boom == 'S':
                log.boom = None
                log.failed = True
                raise W.SimFault('injected')
            n = modelparams.shape[0] * expparams.shape[0] * repeat
            try:
                out = super(Watched, self).simulate_experiment(modelparams, expparams, repeat, **kw)
            except BaseException:
                log.failed = True
                raise
            log.S += n
            return out

        def __reduce_ex__(self, protocol):
            # An engine or a restored process has the plain model.
            return _revive, (cls, self.__getstate__())
    Watched.__name__ = cls.__name__
    Watched.__qualname__ = cls.__qualname__
    model.__class__ = Watched
    return cls.__name__


def stack(model):
    return [model] + list(reversed(getattr(model, 'model_chain', ())))


class Cycle(q.Heuristic):
    eps = None

    def __init__(self, updater):
        super(Cycle, self).__init__(updater)
        self.up = updater

    def __call__(self):
        k = len(self.up.data_record) % len(self.eps)
        return self.eps[k:k + 1].copy()


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    setup, twin = zoo.make(c['model']), zoo.make(c['model'])
    if c.get('engines'):
        setup.model = q.DirectViewParallelizedModel(setup.model, cluster.SimDirectView(w, c['engines']), serial_threshold=c['threshold'])
        if c['above']:
            setup.model = q.MLEModel(setup.model, 1.0)
    m = setup.model
    layers = stack(m)
    logs = [Log() for _ in layers]
    names = []
    for x, l in zip(layers, logs):
        if x.sim_count != 0 or getattr(x, 'call_count', 0) != 0:
            raise Violation('initial-count', '{}: {} {}'.format(type(x).__name__, x.call_count, x.sim_count))
        names.append(watch(x, l))
    u = q.SMCUpdater(m, c['n'], setup.prior, resample_thresh=c['thresh'])
    base = [[0, 0] for _ in layers]       # counters not explained by the notes (failed calls)
    seen = [[0, 0] for _ in layers]
    uncounted = set()

    def check(what):
        for k, (x, l, name) in enumerate(zip(layers, logs, names)):
            for a, (count, note, label) in enumerate([(getattr(x, 'call_count', None), l.L, 'call'), (x.sim_count, l.S, 'sim')]):
                if count is None:
                    continue
                if count != int(count) or count < seen[k][a]:
                    raise Violation('count-decreased', '{}: {} count of {}: {} after {}'.format(what, label, name, count, seen[k][a]))
                if label == 'call' and name in UNCOUNTED and count == 0 and note > 0:
                    uncounted.add(name)
                    continue
                want = note + base[k][a]
                if name == 'ALEApproximateModel' and label == 'sim':
                    want = layers[k + 1].sim_count
                if count != want:
                    if any(y.failed for y in logs):
                        base[k][a] = count - note
                    else:
                        raise Violation('{}-count-{}'.format(label, name), '{}: layer {} of {} has counted {} instead of {}'.format(
                            what, k, names, count, want))
                seen[k][a] = count
        for y in logs:
            y.failed = False
    check('start')
    real = 'real' in setup.tags
    ind = 'ale' in str(c['model']) or 'poisoned' in str(c['model'])
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({})'.format(k, op['op'])
        eps = setup.eps(op['eps'])
        mps = setup.prior.sample(op['mp'])
        kind = op['op']
        x = layers[op['layer'] % len(layers)] if op['how'] != 'scalar' else m
        full = x is m or x.expparams_dtype == m.expparams_dtype
        if not full:
            e = eps['x'] if isinstance(x.expparams_dtype, str) else eps
        else:
            e = eps
        p = mps[:, :x.n_modelparams]
        if real or (not full and 'real' in setup.tags):
            os = np.linspace(-1, 2, op['no'])
            if x.n_modelparams != m.n_modelparams:
                os = np.array([0, 1])
        else:
            os = x.domain(e[:1])[0].values[:op['no']]
        if kind == 'huge':
            huge(op)
            continue
        if kind == 'L':
            if op['how'] == 'flat' and len(mps) == 1 and x.n_modelparams == 1 and not c.get('engines') and type(x).__name__ in ('SimplePrecessionModel',):
                p = p[:, 0]
            x.likelihood(os, p, e)
        elif kind == 'sim':
            if len(op['eps']) > 1 and c.get('engines') and not m.is_n_outcomes_constant:
                eps, e = eps[:1], e[:1]
            x.simulate_experiment(p, e, repeat=op['reps'] if 'ale' not in str(c['model']) else min(op['reps'], 9))
        elif kind in ('upd', 'batch'):
            for j in range(len(eps) if kind == 'batch' else 1):
                o = zoo.choose_outcome(setup, twin.model, eps[j:j + 1], u.particle_locations, u.particle_weights, op['u'])
                if o is not None:
                    try:
                        u.update(o, eps[j:j + 1])
                    except (RuntimeError, AssertionError):
                        u.reset()
        elif kind == 'query':
            if real or 'unnormalised' in setup.tags or ind:
                continue
            if not m.is_n_outcomes_constant and c.get('engines'):
                eps = eps[:1]
            u.bayes_risk(eps)
            u.expected_information_gain(eps)
            u.hypothetical_update(zoo.outcome_values(m, eps[:1])[:op['no']], eps)
        elif kind == 'step':
            m.update_timestep(mps, eps)
            m.clear_cache()
            m.domain(eps[:1])
            m.canonicalize(mps.copy())
            m.are_models_valid(mps)
        elif kind == 'pickle':
            if c.get('engines'):
                continue
            r = pickle.loads(pickle.dumps(m))
            for y, z in zip(stack(r), layers):
                if (y.sim_count, getattr(y, 'call_count', None)) != (z.sim_count, getattr(z, 'call_count', None)):
                    raise Violation('counts-lost-in-pickle', type(z).__name__)
            # Work of the copy is none of ours
            r.simulate_experiment(mps, eps[:1], 2)
        elif kind == 'misc':
            if isinstance(m, q.DifferentiableModel):
                m.fisher_information(mps, eps)
            u.resample()
            u.est_mean()
            u.reset()
        elif kind == 'perf':
            if ind or 'unnormalised' in setup.tags or 'vector' in setup.tags:
                continue   # (performance tests cannot record vector-valued outcomes)
            h = type('C', (Cycle,), dict(eps=eps))
            try:
                q.perf_test(m, 8, setup.prior, min(op['reps'], 9), h)
            except (RuntimeError, AssertionError):
                w.notes['performance test failed'] += 1
        elif kind == 'fail':
            j = op['layer'] % len(layers)
            if c.get('engines') and j > names.index('DirectViewParallelizedModel'):
                j = 0
            logs[j].boom = 'L' if op['u'] < .6 else 'S'
            w.fault('{} of a layer fails'.format('likelihood' if logs[j].boom == 'L' else 'simulation'))
            try:
                if op['u'] < .3:
                    m.likelihood(os if x is m else (m.domain(eps[:1])[0].values[:1] if not real else np.zeros(1)), mps, eps[:1])
                else:
                    m.simulate_experiment(mps, eps[:1], 2)
            except W.SimFault:
                pass
            logs[j].boom = None
        check(what)
        w.log(what, [[y.sim_count, getattr(y, 'call_count', None)] for y in layers])
        w.state(str(c['model']), names, kind, op['layer'], op['reps'] > 1, len(op['eps']) > 1, op['mp'] > 1)
        w.step()
    w.notes['likelihoods counted'] += logs[0].L
    w.notes['simulations counted'] += logs[0].S
    for name in UNCOUNTED:
        if name in uncounted:
            raise Violation('uncounted-' + name, '{}.likelihood was called, but its call_count is still zero'.format(name))
