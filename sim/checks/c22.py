"""C22: adaptive likelihood estimates use every sample once and meet their tolerance."""
import warnings

import numpy as np
import qinfer as q
from qinfer.ale import ALEApproximateModel

from .. import shadow, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run asks an adaptive likelihood estimator for likelihoods, directly and during inference, of a simulator whose outcome '
        'sequences are scripted (constant, alternating, switching, random) or random; every sample drawn is noted and the estimate, '
        'the number of samples and the stopping point are recomputed from them.')
REAL = ['qinfer.ale', 'qinfer.utils (estimators)', 'qinfer.smc', 'simulators of the zoo']
STUB = ['scripted simulators', 'simulator failures', 'random source', 'uninitialised memory']
STATES = 'hash of (parameters, simulator, batch shape, number of rounds)'
RUNS = dict(quick=8000, thorough=240000)
CHUNK = 8
NEEDS_OPS = False
REALSIM = [{'kind': 'precession'}, {'kind': 'inversion'}, {'kind': 't2'}, {'kind': 'coin'}, {'kind': 'noisycoin'}, {'kind': 'rb'}, {'kind': 'tomo', 'dim': 2},
           {'kind': 'sim'}, {'kind': 'randomwalk', 'base': {'kind': 'precession'}}]
SCRIPTS = ['zeros', 'ones', 'alternate', 'random', 'switch', 'late', 'mixed']


def generate(rng, i, tier):
    cfg = dict(tol=rng.choice([.3, .2, .1, .1, .07, .05, .03, .5, .99]), min_samp=rng.choice([1, 1, 2, 5, 10, 13, 50]), step=rng.choice([1, 2, 3, 7, 10, 10, 40]),
               est=rng.choice([0, .509, .509, 1, 2.5]), adapt=rng.choice([0, .509, .509, 1, 4]), n=zoo.big(rng, rng.choice([1, 3, 10, 30]), .005, (130, 300)))
    if rng.random() < .15:
        cfg.update(default=True)
    if rng.random() < .6:
        cfg['script'] = rng.choice(SCRIPTS)
        cfg['p'] = round(rng.random(), 3)
    else:
        cfg['sim'] = rng.choice(REALSIM)
    if rng.random() < .04:
        # half of the samples are ones, and the error is then the tolerance exactly
        cfg.pop('sim', None)
        cfg.pop('default', None)
        tol, k = rng.choice([(.25, 2), (.125, 14), (.125, 14), (.0625, 62)])
        st = rng.choice([d for d in (1, 2, 3, 4, 6, 12, 20) if k > d])
        cfg.update(script='alternate', p=.5, tol=tol, adapt=.5, step=st, min_samp=rng.choice([k, (k - 1) % st + 1]))
    elif rng.random() < .01:
        cfg.update(script=rng.choice(['alternate', 'late', 'random']), p=.5, tol=rng.choice([.0007, .0012]), min_samp=rng.choice([1, 1000]), step=rng.choice([5000, 20000]), n=1)
        cfg.pop('default', None)
        cfg.pop('sim', None)
        return dict(config=cfg, ops=[dict(op='L', eps=[_setup(cfg).gen(rng)], mp=1, os=[0, 1], u=.5)], faults=[])
    setup = _setup(cfg)
    cap = 2 if cfg.get('default') or cfg['tol'] < .06 else 6
    ops = []
    for _ in range(rng.randrange(1, 6)):
        x = rng.random()
        op = dict(op='L', eps=[setup.gen(rng) for _ in range(rng.choice([1, 1, 2, 3]))], mp=rng.choice([1, 1, 2, cap]), os=rng.choice([[0], [1], [0, 1], [1, 0], [1, 1, 0]]),
                  u=round(rng.random(), 6))
        if x < .3:
            op['op'] = 'upd'
        elif x < .4:
            op.update(op='fail', at=rng.randrange(3))
        elif x < .45:
            op.update(op='sim', reps=rng.choice([1, 3]))
        ops.append(op)
    return dict(config=cfg, ops=ops, faults=[])


class Scripted(q.Simulatable):
    """A simulator of arbitrary sequences of zeros and ones."""
    n_modelparams = 2
    modelparam_names = ['x', 'y']
    expparams_dtype = [('k', 'int'), ('s', 'float')]
    is_n_outcomes_constant = True

    def __init__(self, script, p, seed):
        super(Scripted, self).__init__()
        self.script, self.p = script, p
        self.rng = W.clone_rng(seed)
        self.seen = {}

    def n_outcomes(self, expparams):
        return 2

    def domain(self, expparams):
        d = q.IntegerDomain(min=0, max=1)
        return d if expparams is None else [d] * len(expparams)

    def are_models_valid(self, mps):
        return np.all(np.abs(mps) <= 1, axis=1)

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        super(Scripted, self).simulate_experiment(modelparams, expparams, repeat)
        out = W.real('np.empty')((repeat, modelparams.shape[0], expparams.shape[0]), dtype=int)
        for i in range(out.shape[1]):
            for j in range(out.shape[2]):
                for r in range(repeat):
                    out[r, i, j] = self.bit(i, j)
        return out[0, 0, 0] if out.size == 1 else out

    def bit(self, i, j):
        k = self.seen[i, j] = self.seen.get((i, j), -1) + 1
        s = self.script
        if s == 'mixed':
            s = SCRIPTS[(3 * i + j) % 6]
        if s == 'zeros':
            return 0
        if s == 'ones':
            return 1
        if s == 'alternate':
            return k % 2
        if s == 'switch':
            return int(k % 40 >= 20)
        if s == 'late':
            return int(k >= 9 and (k + i) % 2)
        return int(self.rng.random() < self.p)


def _setup(cfg, seed=0):
    if 'sim' in cfg:
        return zoo.make(cfg['sim'])
    m = Scripted(cfg['script'], cfg['p'], seed)
    return zoo.Setup(m, zoo.BoxPrior([[-.9, .9], [-.9, .9]]), zoo._rec, lambda rng: [rng.randrange(6), zoo._r(rng, .1, 1.5)], None, {'finite'})


class Log(object):
    def __init__(self):
        self.calls, self.boom = [], None


def watch(model, log, w):
    cls = type(model)

    class Watched(cls):
        def simulate_experiment(self, modelparams, expparams, repeat=1):
            if log.boom is not None:
                log.boom -= 1
                if log.boom < 0:
                    log.boom = None
                    w.fault('simulator fails')
                    raise W.SimFault('injected')
            w.step(modelparams.shape[0] * expparams.shape[0] * int(repeat))
            out = super(Watched, self).simulate_experiment(modelparams, expparams, repeat)
            log.calls.append((np.array(modelparams), np.array(expparams), int(repeat), np.array(out)))
            return out
    Watched.__name__ = cls.__name__
    model.__class__ = Watched


def recompute(c, calls, mps, eps, what, w):
    """Samples per particle and experiment -> estimated probability of one."""
    samples = {}
    n_m, n_e = len(mps), len(eps)
    for m, e, rep, out in calls:
        out = out.reshape((rep, len(m), len(e)))
        if m.shape == mps.shape and np.array_equal(m, mps):
            ii = range(n_m)
        else:
            ii = [[k for k in range(n_m) if np.array_equal(mps[k], r)][:1] for r in m]
            if not all(ii):
                raise Violation('sampled-other-particles', what)
            ii = [x[0] for x in ii]
        if len(e) == n_e and shadow.same_value(e, eps):
            jj = range(n_e)
        else:
            jj = [[k for k in range(n_e) if shadow.same_value(eps[k:k + 1], e[x:x + 1])][:1] for x in range(len(e))]
            if not all(jj):
                raise Violation('sampled-other-experiments', what)
            jj = [x[0] for x in jj]
        for a, i in enumerate(ii):
            for b, j in enumerate(jj):
                samples.setdefault((i, j), []).extend(int(v) for v in out[:, a, b])
    p1 = np.zeros((n_m, n_e))
    lens = {len(v) for v in samples.values()}
    if len(samples) != n_m * n_e or len(lens) != 1:
        raise Violation('uneven-samples', '{}: {} samples of {} of {} pairs'.format(what, sorted(lens), len(samples), n_m * n_e))
    N = lens.pop()
    if N < c['min_samp'] or (N - c['min_samp']) % c['step']:
        raise Violation('number-of-samples', '{}: {} samples drawn, minimum {} step {}'.format(what, N, c['min_samp'], c['step']))
    bits = np.array([[samples[i, j] for j in range(n_e)] for i in range(n_m)])
    if np.any((bits != 0) & (bits != 1)):
        raise Violation('outcome-not-binary', what)
    a = c['adapt']
    cum = np.cumsum(bits, axis=2)
    for k in range(c['min_samp'], N + 1, c['step']):
        p = (cum[:, :, k - 1] + a) / (k + 2 * a)
        err = np.sqrt(p * (1 - p) / (k + 2 * a + 1))
        worst = np.max(err)
        if abs(worst - c['tol']) < 1e-10:
            # (where no operation rounds)
            if worst == c['tol'] and k == N and np.all(p == .5) and a == .5 and c['tol'] in (.25, .125, .0625):
                raise Violation('stopped-too-early', '{}: error after {} samples is the tolerance {}'.format(what, N, c['tol']))
            continue
        if k < N and worst < c['tol']:
            raise Violation('sampled-too-long', '{}: tolerance {} met with {} samples (error {}), {} drawn'.format(what, c['tol'], k, worst, N))
        if k == N and worst > c['tol']:
            raise Violation('stopped-too-early', '{}: error {} after {} samples, tolerance {}'.format(what, worst, N, c['tol']))
    if N > .25 / c['tol'] ** 2 + c['step'] + c['min_samp'] + 2:
        raise Violation('no-progress', '{}: {} samples'.format(what, N))
    w.notes['samples'] += bits.size
    w.notes['estimates'] += n_m * n_e
    return (cum[:, :, -1] + c['est']) / (N + 2 * c['est']), N


def execute(sc, w):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, w)


def _run(sc, w):
    c = dict(sc['config'])
    setup = _setup(c, sc['seed'])
    sim = setup.model
    log = Log()
    watch(sim, log, w)
    if c.get('default'):
        c.update(tol=1e-2, min_samp=10, step=10, est=.509, adapt=.509, n=1)
        m = ALEApproximateModel(sim)
    else:
        m = ALEApproximateModel(sim, error_tol=c['tol'], min_samp=c['min_samp'], samp_step=c['step'], est_hedge=c['est'], adapt_hedge=c['adapt'])
    u = q.SMCUpdater(m, c['n'], setup.prior, resample_thresh=.5, zero_weight_policy='skip')
    for k, op in enumerate(sc['ops']):
        eps = setup.eps(op['eps'])
        what = 'op {} ({}; tolerance {} minimum {} step {})'.format(k, op['op'], c['tol'], c['min_samp'], c['step'])
        del log.calls[:]
        N = None
        if op['op'] in ('L', 'fail'):
            mps = setup.prior.sample(op['mp'])
            os = np.array(op['os'])
            args = [x.copy() for x in (os, mps, eps)]
            if op['op'] == 'fail':
                log.boom = op['at']
                try:
                    m.likelihood(*args)
                except W.SimFault:
                    del log.calls[:]
                log.boom = None
                del log.calls[:]
            L = m.likelihood(*args)
            if not all(shadow.same_value(a, b) for a, b in zip(args, (os, mps, eps))):
                raise Violation('arguments-modified', what)
            p1, N = recompute(c, log.calls, mps, eps, what, w)
            want = np.stack([p1 if o == 1 else 1 - p1 for o in os])
            if L.shape != want.shape:
                raise Violation('shape', '{}: {} instead of {}'.format(what, L.shape, want.shape))
            if not shadow.close(L, want, rt=1e-10, at=1e-12):
                raise Violation('estimate', '{}: {} instead of {}'.format(what, L.ravel()[:4], want.ravel()[:4]))
            w.log(what, L)
        elif op['op'] == 'sim':
            mps = setup.prior.sample(op['mp'])
            out = m.simulate_experiment(mps, eps, repeat=op['reps'])
            if np.size(out) != op['reps'] * len(mps) * len(eps):
                raise Violation('simulated-shape', '{}: {}'.format(what, np.shape(out)))
            if len(log.calls) != 1 or not np.array_equal(np.ravel(log.calls[0][3]), np.ravel(out)):
                raise Violation('simulated-data', what)
        else:
            ep = eps[:1]
            o = int(op['u'] < .5)
            wt, x = np.array(u.particle_weights), np.array(u.particle_locations)
            count = u.resample_count
            probe = {}
            real = u.resampler

            def spy(model, dist, *a, **kk):
                probe['w'] = np.array(dist.particle_weights)
                return real(model, dist, *a, **kk)
            u.resampler = spy
            try:
                u.update(o, ep)
            finally:
                u.resampler = real
            p1, N = recompute(c, log.calls, x, ep, what, w)
            h = wt * (p1[:, 0] if o == 1 else 1 - p1[:, 0])
            s = h.sum()
            if s > 1e-12:
                got = probe.get('w', np.array(u.particle_weights))
                if not shadow.close(got, h / s, at=1e-12):
                    raise Violation('posterior', '{}: weights differ by {}'.format(what, np.max(np.abs(got - h / s))))
            if u.resample_count == count:
                w.notes['updates'] += 1
            w.log(what, u.particle_weights)
        w.state(c['tol'], c['min_samp'], c['step'], c['est'], c['adapt'], c.get('script', str(c.get('sim'))), len(eps), op['mp'], N)
