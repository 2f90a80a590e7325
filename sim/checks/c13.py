"""C13: distributions only return samples from their support, of the declared shape."""
import warnings

import numpy as np
import qinfer as q

from .. import dists, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run builds a random distribution (or composition) and draws several times, with extreme values of the random '
        'source and garbage in uninitialised memory, checking shape and support, or draws many samples and tests the '
        'frequencies.')
REAL = ['qinfer.distributions', 'qinfer.tomography.distributions', 'scipy.stats', 'qutip random states']
STUB = ['random source incl. extreme values', 'uninitialised memory', 'validity (for postselection)']
STATES = 'hash of (kind of distribution, parameters of its structure, sample counts, mode)'
RUNS = dict(quick=16000, thorough=400000)
CHUNK = 8
NEEDS_OPS = False


def generate(rng, i, tier):
    spec = dists.gen(rng)
    mode = 'freq' if i % 4 == 3 else 'extreme' if i % 4 == 2 else 'draw'
    c = dict(dist=spec, mode=mode, p=rng.choice([.2, .5, 1.0]))
    if spec['kind'] == 'postselected' and rng.random() < .5:
        c['stubborn'] = [rng.randrange(0, 8) for _ in range(8)]
    return dict(config=c, ops=[dict(n=zoo.big(rng, rng.choice([1, 1, 2, 3, 7, 50, 200]))) for _ in range(rng.randrange(1, 5))], faults=[])


class Stubborn(dists.Sector):
    """Rejects row j of the request for its first few rounds."""
    def __init__(self, plan):
        super(Stubborn, self).__init__(1)
        self.plan, self.round, self.alive = plan, 0, None
        self.valid = None

    def begin(self, n):
        self.round, self.left = 0, [self.plan[j % len(self.plan)] for j in range(n)]
        self.accepted = []

    def are_models_valid(self, mps):
        ok = np.array([k <= self.round for k in self.left], dtype=bool)
        if len(ok) != len(mps):
            raise Violation('postselection-asks-for-wrong-rows', '{} rows to decide, {} expected'.format(len(mps), len(ok)))
        self.accepted += [tuple(r) for r in mps[ok]]
        self.left = [k for k, o in zip(self.left, ok) if not o]
        self.round += 1
        return ok


def check_shape(what, s, n, d):
    if not isinstance(s, np.ndarray) or s.shape != (n, d.cols):
        raise Violation('wrong-shape', '{}: {} expected {}'.format(what, getattr(s, 'shape', type(s)), (n, d.cols)))
    if d.dist.n_rvs != d.cols:
        raise Violation('wrong-n_rvs', '{}: {} expected {}'.format(what, d.dist.n_rvs, d.cols))
    if not np.all(np.isfinite(s)):
        raise Violation('not-finite', '{}: {}'.format(what, s[~np.all(np.isfinite(s), axis=1)][:3]))


def stubborn(sc, w):
    c = sc['config']
    plan = c['stubborn']
    m = Stubborn(plan)
    mi = c['dist']['maxiters']
    d = q.PostselectedDistribution(q.UniformDistribution([[0, 1], [2, 3]]), m, **({} if mi is None else dict(maxiters=mi)))
    for op in sc['ops']:
        n = op['n']
        m.begin(n)
        need = max(plan[j % len(plan)] for j in range(n)) + 1
        lim = 100 if mi is None else mi
        try:
            s = d.sample(n)
        except RuntimeError as e:
            if need <= lim:
                raise Violation('postselection-gave-up-early', 'needs {} rounds of {}: {}'.format(need, lim, e))
            if m.round != lim:
                raise Violation('postselection-limit', 'gave up after {} rounds, limit {}'.format(m.round, lim))
            w.state('postselection gives up', lim, n)
            w.fault('postselection exhausted')
            continue
        if need > lim:
            raise Violation('postselection-returned-invalid', 'needs {} rounds, limit {}'.format(need, lim))
        if s.shape != (n, 2) or sorted(map(tuple, s)) != sorted(m.accepted):
            raise Violation('postselection-wrong-samples', 'samples are not the accepted ones')
        w.fault('sample rejected', need - 1)
        w.state('postselection', need, lim, n)
        w.log(s)


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    if c.get('stubborn'):
        return stubborn(sc, w)
    d = dists.make(c['dist'])
    what = str({k: v for k, v in c['dist'].items()})[:300]
    may_fail = 'postselected' in str(c['dist'])
    if c['mode'] == 'freq':
        n = 400 if 'slow' in d.tags else 3000
        parts = [n] if len(sc['ops']) < 2 or 'ordered' in d.tags else [n // 2, 1, n // 2]
        try:
            ss = [d.dist.sample(k) for k in parts]
        except RuntimeError as e:
            if may_fail:
                return
            raise
        for k, s in zip(parts, ss):
            check_shape(what, s, k, d)
        s = np.concatenate(ss)
        ok = d.inside(s)
        if not np.all(ok):
            raise Violation('outside-support', '{}: {}'.format(what, s[~ok][:3]))
        for t in d.tests:
            good, msg = t(s)
            if not good:
                raise Violation('wrong-frequencies', '{}: {}'.format(what, msg))
        if 'ordered' not in d.tags:
            good, msg = dists.rows_independent(s)
            if not good:
                raise Violation('samples-not-independent', '{}: {}'.format(what, msg))
        w.log(s)
        w.state('freq', what)
        return
    if c['mode'] == 'extreme':
        w.extreme_p = c['p']
        w.extreme_normal = True
    keep = []
    for op in sc['ops']:
        n = op['n'] if 'slow' not in d.tags else min(op['n'], 20)
        try:
            s = d.dist.sample(n) if n > 1 or w.rng.random() < .5 else d.dist.sample()
        except RuntimeError as e:
            if may_fail:
                w.state('gave up')
                continue
            raise
        check_shape(what, s, n, d)
        ok = d.inside(s)
        if not np.all(ok):
            raise Violation('outside-support', '{}: {}'.format(what, s[~ok][:3]))
        for a, b in keep:
            if not np.array_equal(a, b):
                raise Violation('earlier-samples-changed', what)
        # Whatever the caller does to a sample may not influence later ones.
        keep.append((s, s.copy()))
        if len(keep) == 2:
            keep[0][0][...] = -7.25
            keep[0] = (keep[0][0], keep[0][0].copy())
        w.log(s)
        w.state(c['mode'], c['dist']['kind'], c['dist'].get('mode'), c['dist'].get('family'), n)
