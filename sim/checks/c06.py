"""C06: resampling draws from the smoothed posterior and preserves its moments."""
import warnings

import numpy as np
import qinfer as q

from .. import stats, zoo
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run resamples a random weighted cloud with scripted noise, scripted rejection of candidates by the model '
        '(over many rounds, up to and beyond the iteration limit) and extreme values of the random source, and '
        'compares centres, noise and moments with the algorithm as published.')
REAL = ['qinfer.resamplers.LiuWestResampler', 'qinfer.distributions.ParticleDistribution', 'qinfer.utils.sqrtm_psd']
STUB = ['noise kernel (scripted)', 'model validity (scripted)', 'random source incl. extreme values']
STATES = 'hash of (mode, dimension, a, override of h, rejection rounds, explicit moments)'
RUNS = dict(quick=20000, thorough=500000)
CHUNK = 16
NEEDS_OPS = False
MODES = ['center', 'noise', 'onehot', 'reject', 'reject', 'reject', 'zerocov', 'extreme', 'extreme', 'moments', 'freq',
         'config']


def generate(rng, i, tier):
    mode = MODES[i % len(MODES)]
    d = rng.choice([1, 1, 2, 2, 3, 4])
    n = zoo.big(rng, rng.choice([3, 5, 8, 20, 60]), .02)
    c = dict(mode=mode, d=d, n=n, a=rng.choice([0.98, 0.98, 0.9, 0.5, 0.0, 1.0, 0.999]),
             h=rng.choice([None, None, None, 0.0, 0.1, 1.0, 2.5]),
             zeros=rng.choice([0, 0, 1, 2]), wt=rng.choice(['random', 'random', 'equal', 'skewed']),
             pts=rng.choice(['normal', 'grid', 'clustered', 'line']),
             m=rng.choice([None, None, 1, 7, 50]), default_m=rng.choice([None, None, 4, 30]),
             mean=rng.random() < .3, cov=rng.random() < .3, upd=rng.random() < .2,
             postselect=rng.random() < .9, aset=rng.choice([None, None, None, 0.7, 0.95]),
             warm=rng.choice([None, None, 1e-2, .3, 30.0]))
    c['rounds'] = rng.choice([0, 1, 2, 3, 5, 9])
    c['maxiter'] = rng.choice([1000, 1000, 2, 3, 4, 6])
    c['scale'] = rng.choice([1.0, 1.0, 1.0, 1e-7, 1e-4, 1e6])
    c['prej'] = rng.choice([0.1, 0.4, 0.7, 0.95])
    if mode in ('center', 'extreme', 'moments') and not c['upd'] and rng.random() < .15:
        # locations given as whole numbers
        c.update(pts='integers', scale=1, warm=None)
    if mode in ('moments', 'freq'):
        c['m'] = 20000
        c['maxiter'] = 1000
    return dict(config=c, ops=[], faults=[])


class Plain(zoo.SimModel):
    """All models valid unless a script says otherwise."""
    def __init__(self, d, valid=None):
        self._d = d
        super(Plain, self).__init__()
        self.valid = valid
        self.asked = 0

    @property
    def n_modelparams(self):
        return self._d

    def are_models_valid(self, mps):
        self.asked += 1
        if self.valid is None:
            return np.ones(len(mps), dtype=bool)
        return self.valid(np.array(mps))

    def likelihood(self, outcomes, mps, eps):
        raise NotImplementedError


def cloud(c, w):
    r = np.random.RandomState(w.rng.randrange(2 ** 31))
    n, d = c['n'], c['d']
    if c['pts'] == 'grid':
        x = (np.arange(n)[:, None] * 1.618034 + np.arange(d)[None] * 0.37) % 1.0 + 3
    elif c['pts'] == 'clustered':
        x = r.randn(n, d) * 0.01 + r.randint(0, 3, size=(n, 1)) * 5.0
    elif c['pts'] == 'line':
        x = r.randn(n, 1) * np.ones((1, d)) * np.arange(1, d + 1) - 7      # singular covariance
    else:
        x = r.randn(n, d) * np.array([1, 100, 1e-3, 5])[:d] + 2
    if c['pts'] == 'integers':
        x = np.round(5 * x / np.max(np.abs(x), axis=0)) + 2
    if c['wt'] == 'equal':
        wt = np.ones(n)
    elif c['wt'] == 'skewed':
        wt = np.exp(3 * r.randn(n))
    else:
        wt = r.rand(n) + 1e-3
    z = min(c['zeros'], n - 2)
    if z:
        wt[-1] = 0
        if z > 1:
            wt[0] = 0
    return x * c['scale'], wt / wt.sum()


def make_dist(c, x, wt):
    if not c['upd']:
        return q.ParticleDistribution(particle_locations=x.astype(int) if c['pts'] == 'integers' else x.copy(), particle_weights=wt.copy())
    u = q.SMCUpdater(Plain(c['d']), c['n'], zoo.FixedPrior(x))
    u.particle_weights = wt.copy()
    return u


def call(c, model, dist, kernel, x, wt, mu=None, cov=None):
    kw = {}
    if c['default_m']:
        kw['default_n_particles'] = c['default_m']
    a = c['a']
    if kernel is not None:
        kw['kernel'] = kernel
    r = q.LiuWestResampler(a=a, h=c['h'], maxiter=c['maxiter'], postselect=c['postselect'], **kw)
    if c['aset'] is not None:
        r.a = a = c['aset']
    h = c['h'] if c['h'] is not None else np.sqrt(1 - a ** 2)
    if r.a != a:
        raise Violation('a-not-set', str(r.a))
    if c.get('warm') and kernel in (None, zero_kernel):
        # The resampler has been used before, for another cloud.
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r(Plain(c['d']), q.ParticleDistribution(particle_locations=(x - x.mean(axis=0)) * c['warm'] + x[0], particle_weights=wt.copy()))
    args = {}
    if c['m']:
        args['n_particles'] = c['m']
    mean = wt @ x
    if mu is not None:
        args['precomputed_mean'], mean = mu, mu
    D = x - wt @ x
    C = (D * wt[:, None]).T @ D
    if cov is not None:
        args['precomputed_cov'], C = cov, cov
    m = c['m'] or c['default_m'] or len(x)
    x0, w0 = np.array(dist.particle_locations), np.array(dist.particle_weights)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        out = r(model, dist, **args)
    if not (np.array_equal(dist.particle_locations, x0) and np.array_equal(dist.particle_weights, w0)):
        raise Violation('resampler-changed-input', '')
    new = np.array(out.particle_locations)
    if new.shape != (m, x.shape[1]):
        raise Violation('particle-count', '{} expected {}'.format(new.shape, (m, x.shape[1])))
    if not np.allclose(out.particle_weights, 1.0 / m, rtol=1e-12, atol=0):
        raise Violation('weights-not-equal', '')
    if not np.all(np.isfinite(new)):
        raise Violation('not-finite', '')
    return new, a, h, mean, C, [k.category.__name__ for k in caught]


def match(new, centers, tol):
    """Index of the centre each row equals, or -1."""
    d = np.max(np.abs(new[:, None, :] - centers[None]) / tol, axis=2)
    j = d.argmin(axis=1)
    return np.where(d[np.arange(len(new)), j] <= 1, j, -1), d.min(axis=1)


def execute(sc, w):
    c = sc['config']
    getattr(__import__('sim.checks.c06', fromlist=['x']), 'run_' + c['mode'])(c, w)
    w.state(c['mode'], c['d'], c['a'], c['h'], c['rounds'] if c['mode'] == 'reject' else 0, c['mean'], c['cov'])


def extras(c, w, x):
    r = np.random.RandomState(w.rng.randrange(2 ** 31))
    mu = x.mean(axis=0) + r.randn(c['d']) * c['scale'] if c['mean'] else None
    cov = None
    if c['cov']:
        A = r.randn(c['d'], c['d'])
        cov = (A.dot(A.T) + np.eye(c['d'])) * c['scale'] ** 2
    return mu, cov


def zero_kernel(*shape):
    return np.zeros(shape)


def tol_of(x):
    return 1e-9 * np.abs(x).max(axis=0) + 1e-10 * np.abs(x).max()


def run_center(c, w, extreme=False):
    x, wt = cloud(c, w)
    mu, cov = extras(c, w, x)
    model = Plain(c['d'])
    new, a, h, mean, C, warns = call(c, model, make_dist(c, x, wt), zero_kernel, x, wt, mu, cov)
    w.log(new)
    if a == 0:
        # everything is shrunk onto the mean
        if np.any(np.abs(new - mean) > tol_of(x)):
            raise Violation('center-wrong', 'a = 0 does not give the mean')
        return
    live = wt > 0
    j, dist = match(new, (a * x + (1 - a) * mean)[live], tol_of(x))
    if np.any(j < 0):
        k = int(np.argmax(j < 0))
        dead, _ = match(new[k:k + 1], (a * x + (1 - a) * mean)[~live], tol_of(x)) if np.any(~live) else ([-1], 0)
        if dead[0] >= 0:
            raise Violation('ancestor-of-zero-weight', 'particle {}'.format(k))
        raise Violation('center-wrong', 'new particle {} is {} away from the nearest shrunk ancestor'.format(
            new[k], dist[k]))
    if model.asked and not c['postselect']:
        raise Violation('validity-consulted', 'postselect=False')


def run_extreme(c, w):
    w.extreme_p = 1.0
    run_center(c, w)


def run_freq(c, w):
    x, wt = cloud(c, w)
    if c['a'] == 0 or c['aset']:
        c = dict(c, a=0.9, aset=None)
    if c['pts'] == 'clustered':
        c = dict(c)
    new, a, h, mean, C, warns = call(c, Plain(c['d']), make_dist(c, x, wt), zero_kernel, x, wt)
    j, dist = match(new, a * x + (1 - a) * mean, tol_of(x))
    if np.any(j < 0):
        raise Violation('center-wrong', str(dist.max()))
    cnt = np.bincount(j, minlength=len(x))
    ok, info = stats.counts_ok(cnt, wt)
    if not ok:
        raise Violation('ancestor-frequencies', 'chosen {} of {} times with weight {}'.format(*info))
    w.log(cnt)


def unit_kernel(calls):
    def k(n_rvs, m):
        out = np.zeros((n_rvs, m))
        idx = np.arange(m) % (n_rvs + 1)
        out[idx[idx < n_rvs], np.nonzero(idx < n_rvs)[0]] = 1
        calls.append(out.copy())
        return out
    return k


def run_onehot(c, w):
    """One certain ancestor and explicit moments: noise can be read off exactly."""
    x, wt = cloud(c, w)
    j = w.rng.randrange(len(x))
    wt = np.zeros(len(x))
    wt[j] = 1
    c = dict(c, cov=True, m=max(c['m'] or 0, c['d'] + 1) if c['m'] else 3 * c['d'] + 3)
    mu, cov = extras(c, w, x)
    calls = []
    new, a, h, mean, C, warns = call(c, Plain(c['d']), make_dist(c, x, wt), unit_kernel(calls), x, wt, mu, cov)
    center = a * x[j] + (1 - a) * mean
    read_noise(new - center, calls, h, C, c, 1e-8 * (c['scale'] + np.abs(x).max() + np.abs(C).max() / c['scale']))
    w.log(new)


def read_noise(delta, calls, h, C, c, tol):
    if len(calls) != 1 or calls[0].shape != (c['d'], len(delta)):
        raise Violation('kernel-use', '{} calls'.format(len(calls)))
    K = calls[0]
    S = np.zeros((c['d'], c['d']))
    for k in range(c['d']):
        cols = delta[K[k] == 1]
        if len(cols) == 0:
            return
        if np.any(np.abs(cols - cols[0]) > tol):
            raise Violation('noise-inconsistent', '')
        S[:, k] = cols[0]
    rest = delta[K.sum(axis=0) == 0]
    if np.any(np.abs(rest) > tol):
        raise Violation('center-wrong', 'off by {}'.format(np.abs(rest).max()))
    if np.any(np.abs(S @ S.T - h ** 2 * C) > 1e-6 * (h ** 2 * np.abs(C).max() + 1e-300) + tol ** 2 * 10):
        raise Violation('noise-covariance', '{} expected {}'.format(S @ S.T, h ** 2 * C))


def run_noise(c, w):
    """Noise small compared with the distance of ancestors."""
    x = np.array([[((7 * i + 3 * k * i * i) % 101) / 10.0 for k in range(c['d'])] for i in range(c['n'])]) * c['scale']
    _, wt = cloud(c, w)
    c = dict(c, a=0.9999999, aset=None, h=None if c['h'] is None else c['h'] * 1e-4, m=4 * c['n'] + 4)
    mu, cov = extras(c, w, x)
    calls = []
    new, a, h, mean, C, warns = call(c, Plain(c['d']), make_dist(c, x, wt), unit_kernel(calls), x, wt, mu, cov)
    cen = a * x + (1 - a) * mean
    j = np.abs(new[:, None, :] - cen[None]).max(axis=2).argmin(axis=1)
    delta = new - cen[j]
    read_noise(delta, calls, h, C, c, 1e-9 * (10 * c['scale'] + np.abs(C).max() / c['scale']))
    w.log(new)


def run_zerocov(c, w):
    x, wt = cloud(c, w)
    if w.rng.random() < .5:
        wt = np.zeros(len(x))
        wt[w.rng.randrange(len(x))] = 1
    else:
        x = np.repeat(x[:1], len(x), axis=0)
    # the covariance must be exactly zero for the special case to matter
    dist = make_dist(c, x, wt)
    j = int(np.argmax(wt))
    new, a, h, mean, C, warns = call(c, Plain(c['d']), dist, lambda *s: np.ones(s), x, wt)
    if np.linalg.norm(dist.est_covariance_mtx()) == 0 and 'ResamplerWarning' not in warns:
        raise Violation('zero-covariance-without-warning', '')
    if np.any(np.abs(new - x[j]) > 1e-4 * (1 + np.abs(x[j])) * max(1, h)):
        raise Violation('zero-covariance-moved', str(np.abs(new - x[j]).max()))
    w.log(new)


def run_moments(c, w):
    if c['zeros'] and c['pts'] == 'line':
        c = dict(c, pts='normal')
    x, wt = cloud(c, w)
    mu, cov = extras(c, w, x)
    if c['mean'] or c['cov']:
        mu = cov = None
    new, a, h, mean, C, warns = call(c, Plain(c['d']), make_dist(c, x, wt), None, x, wt, mu, cov)
    sc = np.abs(x).max() + c['scale']
    ok, z = stats.mean_ok(new, mean, slack=1e-9 * sc)
    if not ok:
        raise Violation('mean-not-preserved', 'z = {}'.format(z))
    # Rare heavy ancestors make the normal approximation poor: demand enough of each.
    if np.min(wt[wt > 0]) * len(new) > 50 or c['wt'] != 'skewed':
        ok, z = stats.cov_ok(new, mean, (a ** 2 + h ** 2) * C, slack=1e-9 * sc ** 2)
        if not ok:
            raise Violation('covariance-not-preserved', 'z = {}'.format(z))
    w.log(new)


def run_config(c, w):
    """Options set after construction, in any order."""
    r = q.LiuWestResampler(a=c['a'], h=c['h'])
    seq = [w.rng.choice([0.3, 0.6, 0.8, 0.95, 1.0]) for _ in range(3)]
    for a in seq:
        r.a = a
        x = np.array([[0.0], [1.0]])
        d = q.ParticleDistribution(particle_locations=x, particle_weights=np.array([1.0, 0.0]))
        r2 = q.LiuWestResampler(a=c['a'], h=c['h'], kernel=lambda *s: np.ones(s))
        r2.a = a
        new = r2(Plain(1), d, precomputed_mean=np.array([2.0]), precomputed_cov=np.array([[4.0]])).particle_locations
        h = c['h'] if c['h'] is not None else np.sqrt(1 - a ** 2)
        exp = (1 - a) * 2.0 + h * 2.0
        if np.any(np.abs(np.abs(new - (1 - a) * 2.0) - abs(h * 2.0)) > 1e-9):
            raise Violation('a-or-h-ignored', '{} expected {}'.format(new, exp))
    w.log(seq)


def run_reject(c, w):
    c = dict(c, postselect=True)
    x, wt = cloud(c, w)
    mu, cov = extras(c, w, x)
    d = c['d']
    vs = [np.array([w.rng.choice([-1, 1]) * (0.1 + w.rng.random()) for _ in range(d)]) for _ in range(2500)]
    kcalls = []

    def kernel(n_rvs, m):
        v = vs[len(kcalls)]
        kcalls.append(m)
        if c['pts'] == 'grid':
            v = 0 * v
        return np.repeat(v[:, None], m, axis=1)
    seen = []

    def valid(cand):
        r = len(seen)
        if c['maxiter'] < 1000 or r < c['rounds']:
            mask = np.array([w.rng.random() >= c['prej'] for _ in range(len(cand))])
        else:
            mask = np.ones(len(cand), dtype=bool)
        seen.append((cand.copy(), mask.copy()))
        w.step()
        if np.any(~mask):
            w.fault('candidate rejected', int(np.sum(~mask)))
        return mask
    model = Plain(d, valid)
    dist = make_dist(c, x, wt)
    new, a, h, mean, C, warns = call(c, model, dist, kernel, x, wt, mu, cov)
    if np.linalg.norm(C) == 0:
        return
    w.log(new, len(seen))
    # Which noise was added in each round?  S is the same in all of them.
    zero = c['pts'] == 'grid'
    S = np.zeros((d, d)) if zero else symmetric_sqrt(C) * h
    cen = (a * x + (1 - a) * mean)[wt > 0]
    scale = c['scale'] + np.abs(x).max() + np.abs(S).max() + np.abs(mean).max()
    tol = np.full(d, 2e-6 * scale)
    if seen and not zero and np.any(match(seen[0][0] - S @ vs[0], cen, tol)[0] < 0):
        try:
            S = np.linalg.cholesky(C) * h           # an equally good square root
        except np.linalg.LinAlgError:
            pass
    prev = None
    m = c['m'] or c['default_m'] or len(x)
    kept = []
    n_left = m
    for r, (cand, mask) in enumerate(seen):
        if len(cand) != n_left:
            raise Violation('wrong-number-redrawn', 'round {}: {} candidates, {} were left'.format(r, len(cand), n_left))
        centers = cand - S @ vs[r]
        j, dd = match(centers, cen, tol)
        if np.any(j < 0):
            raise Violation('redrawn-around-wrong-center' if r else 'center-wrong',
                            'round {}: off by {} tolerances'.format(r, dd.max()))
        if prev is not None:
            if not same_multiset(centers, prev, tol):
                raise Violation('redrawn-around-wrong-center', 'round {}: centres of the rejected candidates '
                                'were not kept'.format(r))
        prev = centers[~mask]
        kept.append(cand[mask])
        n_left = int(np.sum(~mask))
    if len(seen) > c['maxiter']:
        raise Violation('too-many-rounds', '{} > {}'.format(len(seen), c['maxiter']))
    if n_left and len(seen) < c['maxiter']:
        raise Violation('gave-up-early', 'after {} rounds of {}'.format(len(seen), c['maxiter']))
    if n_left and 'ResamplerWarning' not in warns:
        raise Violation('invalid-without-warning', '{} left'.format(n_left))
    if not n_left and 'ResamplerWarning' in warns:
        raise Violation('spurious-warning', '')
    final = np.concatenate(kept + ([seen[-1][0][~seen[-1][1]]] if n_left else []))
    if not same_multiset(new, final, tol * 1e-3):
        raise Violation('accepted-candidates-lost', '')


def symmetric_sqrt(C):
    v, U = np.linalg.eigh(C)
    return (U * np.sqrt(np.clip(v, 0, None))) @ U.T


def same_multiset(A, B, tol):
    if A.shape != B.shape:
        return False
    from scipy.optimize import linear_sum_assignment
    if not len(A):
        return True
    cost = (np.abs(A[:, None, :] - B[None]) / tol).max(axis=2) > 1
    r, k = linear_sum_assignment(cost.astype(float))
    return not cost[r, k].any()
