"""Distribution zoo: JSON specs of distributions with their declared support and frequencies."""
import warnings

import numpy as np
import scipy.stats as ss
import qinfer as q

from . import stats, zoo

TOL = 1e-12


class D(object):
    """dist, mask of samples inside the support, and a list of frequency tests."""
    def __init__(self, dist, cols, inside, tests=(), tags=()):
        self.dist, self.cols, self.inside, self.tests, self.tags = dist, cols, inside, list(tests), frozenset(tags)


def ks(cdf, col=0, name=''):
    return lambda s: (ss.kstest(s[:, col], cdf).pvalue > stats.P_MIN, 'distribution of column {} {}'.format(col, name))


def uncorrelated(i, j):
    def f(s):
        if np.ptp(s[:, i]) == 0 or np.ptp(s[:, j]) == 0:
            return True, ''
        r = ss.spearmanr(s[:, i], s[:, j])[0]
        return abs(r) * np.sqrt(len(s)) < stats.Z + 1, 'columns {} and {} are correlated: {}'.format(i, j, r)
    return f


def rows_independent(s):
    """Successive samples are not correlated (nor repeated)."""
    for c in range(s.shape[1]):
        v = s[:, c]
        if np.ptp(v) > 0:
            r = ss.spearmanr(v[:-1], v[1:])[0]
            if abs(r) * np.sqrt(len(v) - 1) > stats.Z + 1:
                return False, 'successive samples are correlated: {}'.format(r)
    return True, ''


def mean_is(mu):
    def f(s):
        ok, z = stats.mean_ok(s, np.asarray(mu), slack=1e-9)
        return ok, 'mean {} expected {} ({} sigma)'.format(s.mean(axis=0), mu, z)
    return f


def cov_is(mu, cov):
    def f(s):
        ok, z = stats.cov_ok(s, np.asarray(mu), np.asarray(cov), slack=1e-9)
        return ok, 'covariance {} expected {} ({} sigma)'.format(np.cov(s.T).tolist(), np.asarray(cov).tolist(), z)
    return f


def counts(classify, probs):
    def f(s):
        c = classify(s)
        k = [int(np.sum(c == i)) for i in range(len(probs))]
        ok, bad = stats.counts_ok(k, probs)
        return ok and sum(k) == len(s), 'frequencies {} expected {}'.format(k, list(probs))
    return f


KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def finite(s):
    return np.all(np.isfinite(s), axis=1)


@kind
def uniform(spec):
    r = np.array(spec['ranges'], dtype=float)
    r2 = r.reshape(-1, 2)
    lo, hi = r2.T
    t = TOL * (1 + np.abs(lo) + np.abs(hi))
    return D(q.UniformDistribution(spec['ranges'] if spec.get('list') else r), len(r2),
             lambda s: np.all((s >= lo - t) & (s <= hi + t), axis=1),
             [ks(ss.uniform(l, h - l).cdf, i) for i, (l, h) in enumerate(r2)] +
             [uncorrelated(i, j) for i in range(len(r2)) for j in range(i)])


@kind
def constant(spec):
    v = np.array(spec['values'], dtype=float)
    return D(q.ConstantDistribution(spec['values']), len(v), lambda s: np.all(s == v, axis=1), tags=['degenerate'])


@kind
def normal(spec):
    m, v, tr = spec['mean'], spec['var'], spec.get('trunc')
    sd = np.sqrt(v)
    if tr:
        f = ss.truncnorm((tr[0] - m) / sd, (tr[1] - m) / sd, loc=m, scale=sd)
        return D(q.NormalDistribution(m, v, trunc=tuple(tr)), 1,
                 lambda s: np.all((s >= tr[0] - TOL) & (s <= tr[1] + TOL), axis=1), [ks(f.cdf)])
    return D(q.NormalDistribution(m, v), 1, finite, [ks(ss.norm(m, sd).cdf)])


@kind
def mvn(spec):
    m, A = np.array(spec['mean'], dtype=float), np.array(spec['root'], dtype=float)
    cov = A.dot(A.T) + 1e-3 * np.eye(len(m))
    return D(q.MultivariateNormalDistribution(m, cov), len(m), finite,
             [ks(ss.norm(m[i], np.sqrt(cov[i, i])).cdf, i) for i in range(len(m))] + [cov_is(m, cov)])


@kind
def slanted(spec):
    r = np.array(spec['ranges'], dtype=float).reshape(-1, 2)
    wt = spec['weight']
    mu, var = r.mean(axis=1), (r[:, 1] - r[:, 0]) ** 2 / 12 + wt ** 2
    cov = np.diag(var)
    lo, hi = r.T
    return D(q.SlantedNormalDistribution(spec['ranges'], wt), len(r),
             lambda s: finite(s) & np.all((s > lo - 12 * wt) & (s < hi + 12 * wt), axis=1), [mean_is(mu), cov_is(mu, cov)])


@kind
def lognormal(spec):
    mu, s_ = spec.get('mu', 0), spec.get('sigma', 1)
    return D(q.LogNormalDistribution(mu, s_), 1, lambda s: finite(s) & (s[:, 0] > mu - TOL),
             [ks(ss.lognorm(1, mu, s_).cdf)])


def _ab(spec):
    return {k: spec[k] for k in ('alpha', 'beta', 'mean', 'var') if k in spec}


@kind
def beta(spec):
    d = q.BetaDistribution(**_ab(spec))
    if 'alpha' in spec:
        a, b = spec['alpha'], spec['beta']
    else:
        m, v = spec['mean'], spec['var']
        nu = m * (1 - m) / v - 1
        a, b = m * nu, (1 - m) * nu
    return D(d, 1, lambda s: np.all((s >= 0) & (s <= 1), axis=1), [ks(ss.beta(a, b).cdf)])


@kind
def dirichlet(spec):
    a = np.array(spec['alpha'], dtype=float)
    return D(q.DirichletDistribution(spec['alpha']), len(a),
             lambda s: np.all((s >= 0) & (s <= 1), axis=1) & (np.abs(s.sum(axis=1) - 1) < 1e-9),
             [ks(ss.beta(a[i], a.sum() - a[i]).cdf, i) for i in range(len(a))])


@kind
def mvuniform(spec):
    n = spec['dim']
    return D(q.MVUniformDistribution(n), n,
             lambda s: np.all((s >= 0) & (s <= 1), axis=1) & (np.abs(s.sum(axis=1) - 1) < 1e-9),
             [ks(ss.beta(1, n - 1).cdf, i) for i in range(n)])


@kind
def betabinomial(spec):
    n = spec['n']
    d = q.BetaBinomialDistribution(n, **_ab(spec))
    if 'alpha' in spec:
        a, b = spec['alpha'], spec['beta']
        f = ss.betabinom(n, a, b)
        t = [counts(lambda s: s[:, 0], f.pmf(np.arange(n + 1)))]
    else:
        t = [mean_is([spec['mean']]), cov_is([spec['mean']], [[spec['var']]])]
    return D(d, 1, lambda s: np.all((s >= 0) & (s <= n) & (s == np.round(s)), axis=1), t)


@kind
def gamma(spec):
    d = q.GammaDistribution(**_ab(spec))
    if 'alpha' in spec:
        a, b = spec['alpha'], spec['beta']
    else:
        a, b = spec['mean'] ** 2 / spec['var'], spec['mean'] / spec['var']
    return D(d, 1, lambda s: finite(s) & (s[:, 0] >= 0), [ks(ss.gamma(a, scale=1 / b).cdf)])


@kind
def discrete(spec):
    n = 2 ** spec['bits']
    t = [counts(lambda s: s[:, 0], [1.0 / n] * n)] if n <= 64 else []
    return D(q.DiscreteUniformDistribution(spec['bits']), 1,
             lambda s: np.all((s >= 0) & (s < n) & (s == np.round(s)), axis=1), t)


@kind
def mixture(spec):
    """Components at disjoint places so that their frequencies can be read off."""
    w = np.array(spec['weights'])
    k = len(w)
    if spec.get('mode') == 'class':
        a = np.array([[3.0 * i, 0.01 * (i + 1)] for i in range(k)])
        d = q.MixtureDistribution(w, q.NormalDistribution, dist_args=a, shuffle=spec.get('shuffle', True))
        cl = lambda s: np.clip(np.round(s[:, 0] / 3.0), 0, k - 1).astype(int)
        inside = lambda s: finite(s) & (np.abs(s[:, 0] - 3.0 * cl(s)) < 1.5) & (w[cl(s)] > 0)
        cols, extra = 1, [lambda s, i=i: _within(s[cl(s) == i][:, 0], ss.norm(3.0 * i, np.sqrt(0.01 * (i + 1))).cdf) for i in range(k)]
    elif spec.get('mode') == 'kw':
        kw = {'alpha': np.array([[1.0 + i] for i in range(k)]), 'beta': np.array([[2.0] for i in range(k)])}
        a = np.zeros((k, 0))
        d = q.MixtureDistribution(w, q.BetaDistribution, dist_args=a, dist_kw_args=kw, shuffle=spec.get('shuffle', True))
        cdf = lambda v: sum(w[i] * ss.beta(1.0 + i, 2.0).cdf(v) for i in range(k))
        return D(d, 1, lambda s: np.all((s >= 0) & (s <= 1), axis=1), [ks(cdf)],
                 ['ordered'] if not spec.get('shuffle', True) else [])
    else:
        fs = [make(f) for f in spec['factors']]
        off = [10.0 * i for i in range(k)]
        d = q.MixtureDistribution(w if not spec.get('lists') else list(w), [
            q.UniformDistribution([[o, o + 1 + i], [-o - 1, -o]]) for i, o in enumerate(off)], shuffle=spec.get('shuffle', True))
        cl = lambda s: np.clip(np.floor(s[:, 0] / 10.0), 0, k - 1).astype(int)
        inside = lambda s: (w[cl(s)] > 0) & (s[:, 0] >= 10 * cl(s) - TOL) & (s[:, 0] <= 10 * cl(s) + 1 + cl(s) + 1e-9) & \
            (s[:, 1] >= -10 * cl(s) - 1 - 1e-9) & (s[:, 1] <= -10 * cl(s) + 1e-9)
        cols, extra = 2, [lambda s, i=i: _within(s[cl(s) == i][:, 0], ss.uniform(10.0 * i, 1 + i).cdf) for i in range(k)]
    tests = [counts(cl, w)] + extra
    tags = []
    if not spec.get('shuffle', True):
        tests.append(lambda s: (bool(np.all(np.diff(cl(s)) >= 0)), 'components are not in order'))
        tags = ['ordered']
    return D(d, cols, inside, tests, tags)


def _within(v, cdf):
    if len(v) < 5:
        return True, ''
    return ss.kstest(v, cdf).pvalue > stats.P_MIN, 'distribution within a component'


@kind
def particle(spec):
    w = np.array(spec['weights'], dtype=float)
    x = np.arange(len(w))[:, None] * np.array([1.0, -2.0, 0.5])[None, :spec.get('cols', 2)]
    d = q.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    p = w / w.sum()
    cl = lambda s: np.round(s[:, 0]).astype(int)

    def inside(s):
        c = np.clip(cl(s), 0, len(w) - 1)
        return np.all(s == x[c], axis=1) & (w[c] > 0)
    return D(d, x.shape[1], inside, [counts(cl, p)], ['particle'])


@kind
def product(spec):
    fs = [make(f) for f in spec['factors']]
    if spec.get('twice') is not None:
        # the very same distribution for two factors: independent all the same
        fs.append(fs[spec['twice'] % len(fs)])
    cuts = np.cumsum([0] + [f.cols for f in fs])
    ds = [f.dist for f in fs]
    d = q.ProductDistribution(*ds) if not spec.get('iterable') or len(ds) == 1 else q.ProductDistribution(ds)
    if len(ds) == 1:
        d = q.ProductDistribution(ds)

    def inside(s):
        return np.all([f.inside(s[:, a:b]) for f, a, b in zip(fs, cuts, cuts[1:])], axis=0)
    tests = [lambda s, t=t, a=a, b=b: t(s[:, a:b]) for f, a, b in zip(fs, cuts, cuts[1:]) for t in f.tests]
    tests += [uncorrelated(int(a), int(b)) for a in cuts[:-1] for b in cuts[:-1] if a < b
              ] if not any('ordered' in f.tags for f in fs) else []
    return D(d, int(cuts[-1]), inside, tests, ['ordered'] if any('ordered' in f.tags for f in fs) else [])


class Sector(q.Simulatable):
    """Validity limited to a small part of the square; optionally never valid for some time."""
    n_modelparams = 2
    expparams_dtype = [('t', float)]
    is_n_outcomes_constant = True

    def __init__(self, r=0.5):
        self.r = r
        self.asked = []
        super(Sector, self).__init__()

    def n_outcomes(self, eps):
        return 2

    def domain(self, eps):
        return q.IntegerDomain(min=0, max=1)

    def are_models_valid(self, mps):
        self.asked.append(np.array(mps))
        return mps[:, 0] ** 2 + mps[:, 1] ** 2 < self.r ** 2

    def simulate_experiment(self, mps, eps, repeat=1):
        super(Sector, self).simulate_experiment(mps, eps, repeat)


@kind
def postselected(spec):
    r = spec['r']
    m = Sector(r)
    base = q.UniformDistribution([[0, 1], [0, 1]])
    kw = {} if spec.get('maxiters') is None else dict(maxiters=spec['maxiters'])
    d = q.PostselectedDistribution(base, m, **kw)
    return D(d, 2, lambda s: np.all((s >= 0) & (s <= 1), axis=1) & (np.sum(s ** 2, axis=1) < r ** 2),
             [lambda s: (ss.kstest((s[:, 0] ** 2 + s[:, 1] ** 2) / r ** 2, 'uniform').pvalue > stats.P_MIN, 'radius'),
              lambda s: (ss.kstest(np.arctan2(s[:, 1], s[:, 0]) * 2 / np.pi, 'uniform').pvalue > stats.P_MIN, 'angle')],
             ['postselected'])


class Pdf(object):
    """Picklable densities."""
    def __init__(self, name):
        self.f = getattr(ss, name)() if name != 'laplace2' else ss.laplace(1, 2)
        self.name = name

    def __call__(self, x):
        return self.f.pdf(x)


@kind
def interpolated(spec):
    f = Pdf(spec['pdf'])
    d = q.InterpolatedUnivariateDistribution(f, spec.get('scale', 1), spec.get('points', 1500))
    lo = {'uniform': 0, 'expon': 0}.get(spec['pdf'], -np.inf)
    hi = {'uniform': 1}.get(spec['pdf'], np.inf)
    # Compactified points are coarse, so the support is only met to within one point.
    xs = q.utils.compactspace(spec.get('scale', 1), spec.get('points', 1500))
    pad = 0.02 if np.isfinite(lo) or np.isfinite(hi) else 0
    def close(s):
        v = np.sort(s[:, 0])
        e = (np.arange(len(v)) + .5) / len(v)
        dmax = np.max(np.abs(f.f.cdf(v) - e))
        return dmax < 5.5 / np.sqrt(len(v)) + 0.01, 'distribution (distance {})'.format(dmax)
    return D(d, 1, lambda s: finite(s) & (s[:, 0] >= lo - pad) & (s[:, 0] <= hi + pad), [close])


@kind
def constrained(spec):
    u = make(spec['base'])
    tot = spec['total']
    d = q.ConstrainedSumDistribution(u.dist, desired_total=tot) if spec.get('given', True) else \
        q.ConstrainedSumDistribution(u.dist)
    tot = tot if spec.get('given', True) else 1

    def inside(s):
        # A positive multiple (or negative, for the other sign of the sum) of a sample of the base.
        return finite(s) & (np.abs(s.sum(axis=1) - tot) < 1e-9 * (1 + abs(tot) + np.abs(s).sum(axis=1)))
    tests = []
    if u.cols == 2 and spec['base']['kind'] == 'uniform':
        r = np.array(spec['base']['ranges'], dtype=float)
        rng = np.random.RandomState(12345)
        x = r[:, 0] + rng.random_sample((20000, 2)) * (r[:, 1] - r[:, 0])
        ref = tot * x[:, 0] / x.sum(axis=1)
        tests = [lambda s: (ss.ks_2samp(s[:, 0], ref).pvalue > stats.P_MIN, 'distribution of the first share')]
    return D(d, u.cols, inside, tests)


def _ball(s):
    return np.all(np.isfinite(s), axis=1) & (np.sum(s ** 2, axis=1) <= 1 + 1e-9)


@kind
def haar(spec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = q.HaarUniform()
    return D(d, 3, lambda s: np.abs(np.sum(s ** 2, axis=1) - 1) < 1e-9,
             [ks(ss.uniform(-1, 2).cdf, i) for i in range(3)], ['slow'])


@kind
def ginibre(spec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        k = spec.get('k', 2)
        d = q.GinibreUniform(2, k)
    if k == 1:
        return D(d, 3, lambda s: np.abs(np.sum(s ** 2, axis=1) - 1) < 1e-9,
                 [ks(ss.uniform(-1, 2).cdf, i) for i in range(3)], ['slow'])
    t = [lambda s: (ss.kstest(np.sqrt(np.sum(s ** 2, axis=1)) ** 3, 'uniform').pvalue > stats.P_MIN, 'Bloch radius')] if k == 2 else []
    return D(d, 3, _ball, t + [mean_is([0, 0, 0])], ['slow'])


@kind
def hsuniform(spec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = q.HilbertSchmidtUniform(spec.get('dim', 2))
    dim = spec.get('dim', 2)

    def inside(s):
        if dim == 2:
            return _ball(s)
        P = d.paulis
        out = []
        for v in s:
            rho = (P[0] + np.einsum('i,ijk->jk', v, P[1:])) / dim
            out.append(np.all(np.isfinite(v)) and np.min(np.linalg.eigvalsh(rho)) > -1e-9)
        return np.array(out, dtype=bool)
    def spread(s):
        # the random states are not all the mixed one, in any of the coordinates
        sd = s.std(axis=0)
        return np.all(sd > .02)
    return D(d, dim ** 2 - 1, inside, [mean_is([0] * (dim ** 2 - 1)), lambda s: (len(s) < 50 or spread(s), 'spread of every coordinate')], ['slow'])


def _basis(b):
    from qinfer import tomography as t
    if b == 'pauli1':
        return t.pauli_basis(1)
    if b == 'pauli2':
        return t.pauli_basis(2)
    if b == 'tensor':
        return t.tensor_product_basis(t.pauli_basis(1), t.gell_mann_basis(3))
    return t.gell_mann_basis(int(b))


def physical(basis, s, trace=1.0, tol=1e-8):
    M = np.asarray(basis.data)
    d = M.shape[1]
    out = []
    for v in s:
        if not np.all(np.isfinite(v)):
            out.append(False)
            continue
        rho = np.einsum('i,ijk->jk', v, M)
        ok = np.allclose(rho, rho.conj().T, atol=tol)
        ev = np.linalg.eigvalsh((rho + rho.conj().T) / 2)
        out.append(ok and ev[0] > -tol and (trace is None or abs(np.trace(rho) - trace) < tol))
    return np.array(out, dtype=bool)


@kind
def tomo(spec):
    from qinfer import tomography as t
    import qutip as qt
    fam = spec['family']
    if fam == 'tensor':
        b1, b2 = _basis('pauli1'), _basis(spec.get('second', 'pauli1'))
        d = t.TensorProductDistribution([t.GinibreDistribution(b1), t.GinibreDistribution(b2)])
        basis = d.basis
    elif fam == 'bcsz':
        basis1 = _basis('pauli1')
        d = t.BCSZChoiDistribution(basis1, rank=spec.get('rank'), enforce_tp=spec.get('tp', True))
        basis = d.basis
    else:
        basis = _basis(spec.get('basis', 'pauli1'))
        r = spec.get('rank')
        arg = basis if not spec.get('int') else int(basis.dim)
        if fam == 'ginibre':
            d = t.GinibreDistribution(arg, r)
        elif fam == 'redit':
            d = t.GinibreReditDistribution(arg, r)
        else:
            n = basis.dim
            p = np.array(spec.get('mean', [.7, .3]) + [.1] * 8)[:n]      # full rank
            p = p / p.sum()
            d = t.GADFLIDistribution(t.GinibreDistribution(basis), qt.Qobj(np.diag(p), dims=basis.dims if isinstance(basis.dims[0], list) else None))
    basis = d.basis
    tests = []

    def inside(s):
        ok = physical(basis, s)
        if fam == 'redit':
            M = np.asarray(basis.data)
            ok &= np.array([np.allclose(np.imag(np.einsum('i,ijk->jk', v, M)), 0, atol=1e-9) for v in s])
        if fam == 'bcsz' and spec.get('tp', True):
            M = np.asarray(basis.data)
            n = int(round(np.sqrt(M.shape[1])))
            for k, v in enumerate(s):
                J = np.einsum('i,ijk->jk', v, M).reshape([n] * 4) * n
                ok[k] &= bool(np.allclose(np.einsum('iaja->ij', J), np.eye(n), atol=1e-7) or
                              np.allclose(np.einsum('aiaj->ij', J), np.eye(n), atol=1e-7))
        r = spec.get('rank')
        if r and fam in ('ginibre', 'redit'):
            M = np.asarray(basis.data)
            for k, v in enumerate(s):
                ev = np.linalg.eigvalsh(np.einsum('i,ijk->jk', v, M))
                ok[k] &= bool(np.sum(ev > 1e-9) <= r)
        return ok
    if fam == 'ginibre':
        M = np.asarray(basis.data)
        mu = np.array([np.real(np.trace(m)) / basis.dim for m in M])
        tests = [mean_is(mu)]
    if fam == 'gadfli':
        M = np.asarray(basis.data)
        mu = np.array([np.real(np.trace(m.conj().T.dot(np.diag(p)))) for m in M])
        tests = [mean_is(mu)]
    return D(d, basis.dim ** 2, inside, tests, ['slow', 'qutip'])


def make(spec):
    return KINDS[spec['kind']](spec)


def gen(rng, depth=0, only=None):
    """Random spec."""
    k = rng.choice(only or [
        'uniform', 'uniform', 'constant', 'normal', 'normal', 'mvn', 'slanted', 'lognormal', 'beta', 'dirichlet', 'mvuniform',
        'betabinomial', 'gamma', 'discrete', 'mixture', 'mixture', 'particle', 'particle', 'product', 'postselected',
        'postselected', 'interpolated', 'interpolated', 'constrained', 'constrained', 'haar', 'ginibre', 'hsuniform', 'tomo', 'tomo'])
    f = lambda a, b: round(rng.uniform(a, b), 4)
    s = dict(kind=k)
    if k in ('uniform', 'slanted'):
        n = rng.choice([1, 1, 2, 3])
        s['ranges'] = [sorted([f(-3, 3), f(-3, 3)]) for _ in range(n)]
        if n == 1 and rng.random() < .5:
            s['ranges'] = s['ranges'][0]
        s['list'] = rng.random() < .5
        s['weight'] = rng.choice([0.01, 0.5, f(0, 2)])
        if k == 'uniform' and rng.random() < .1:
            s['ranges'] = [[1.0, 1.0 + 1e-9], [-1e6, 1e6]]
    elif k == 'constant':
        s['values'] = [f(-3, 3) for _ in range(rng.choice([1, 2, 3]))]
    elif k == 'normal':
        s.update(mean=f(-2, 2), var=rng.choice([f(0.01, 4), 1e-4, 100.0]))
        if rng.random() < .6:
            c = s['mean'] + f(-1, 1) * s['var'] ** .5
            s['trunc'] = [c - f(.1, 2) * s['var'] ** .5, c + f(.1, 2) * s['var'] ** .5]
    elif k == 'mvn':
        n = rng.choice([1, 2, 3])
        s.update(mean=[f(-2, 2) for _ in range(n)], root=[[f(-1, 1) for _ in range(n)] for _ in range(n)])
    elif k == 'lognormal':
        if rng.random() < .7:
            s.update(mu=f(-2, 2), sigma=f(.1, 2))
    elif k in ('beta', 'gamma', 'betabinomial'):
        a, b = f(.5, 6), f(.5, 6)
        s['n'] = n = rng.choice([1, 2, 5, 20])
        if rng.random() < .5:
            s.update(alpha=a, beta=b)
        elif k == 'beta':
            s.update(mean=a / (a + b), var=a * b / ((a + b) ** 2 * (a + b + 1)))
        elif k == 'gamma':
            s.update(mean=a / b, var=a / b ** 2)
        else:
            s['n'] = n = rng.choice([2, 5, 20])
            s.update(mean=n * a / (a + b), var=n * a * b * (a + b + n) / ((a + b) ** 2 * (a + b + 1)))
    elif k == 'dirichlet':
        s['alpha'] = [f(.5, 4) for _ in range(rng.choice([2, 3, 5]))]
    elif k == 'mvuniform':
        s['dim'] = rng.choice([2, 3, 6])
    elif k == 'discrete':
        s['bits'] = rng.choice([0, 1, 2, 3, 5, 10])
    elif k == 'mixture':
        n = rng.choice([1, 2, 3, 4])
        w = [rng.choice([0, 1, 1, 2, 5]) + (0 if rng.random() < .5 else rng.random()) for _ in range(n)]
        if sum(w) == 0:
            w[0] = 1
        tot = float(sum(w))
        s.update(weights=[x / tot for x in w], mode=rng.choice(['list', 'list', 'class', 'kw']), shuffle=rng.random() < .7,
                 factors=[], lists=rng.random() < .3)
    elif k == 'particle':
        n = rng.choice([1, 2, 3, 10, 30])
        w = [rng.choice([0, 0, 1, 1, 3]) * rng.choice([1, rng.random()]) for _ in range(n)]
        if sum(w) == 0:
            w[rng.randrange(n)] = 1.0
        s.update(weights=w, cols=rng.choice([1, 2, 3]))
    elif k == 'product':
        s.update(factors=[gen(rng, depth + 1, ['uniform', 'normal', 'beta', 'constant', 'dirichlet', 'mixture', 'particle', 'mvn',
                                               'discrete', 'interpolated', 'postselected'])
                          for _ in range(rng.choice([1, 2, 2, 3]))], iterable=rng.random() < .5, twice=rng.choice([None, None, None, 0, 1]))
    elif k == 'postselected':
        s.update(r=rng.choice([1.0, 0.9, 0.5, 0.2]), maxiters=rng.choice([None, None, 1, 2, 5, 1000]))
    elif k == 'interpolated':
        # The grid of interpolation points has to cover the density.
        p, sc = rng.choice([('norm', .5), ('norm', 1), ('norm', 3), ('uniform', .5), ('uniform', 1), ('uniform', 3),
                            ('expon', 2), ('expon', 3), ('laplace2', 2), ('laplace2', 3), ('laplace2', 10), ('cauchy', 10)])
        s.update(pdf=p, scale=sc, points=rng.choice([1500, 400, 3000]))
    elif k == 'constrained':
        if rng.random() < .6:
            n = rng.choice([2, 2, 3])
            sg = rng.choice([1, 1, -1])
            s['base'] = dict(kind='uniform', ranges=[sorted([sg * f(.2, 1), sg * f(1.5, 3)]) for _ in range(n)])
        else:
            s['base'] = rng.choice([dict(kind='dirichlet', alpha=[1.0, 2.0, 3.0]), dict(kind='constant', values=[2.0, -5.0]),
                                    dict(kind='constant', values=[1.0, 3.0, -0.5])])
        s.update(total=rng.choice([1, 1, 0.5, 5, -2]), given=rng.random() < .7)
    elif k == 'ginibre':
        s['k'] = rng.choice([1, 2, 2, 3])
    elif k == 'hsuniform':
        s['dim'] = rng.choice([2, 2, 4])
    elif k == 'tomo':
        fam = rng.choice(['ginibre', 'ginibre', 'redit', 'gadfli', 'tensor', 'bcsz'])
        s['family'] = fam
        s['basis'] = b = rng.choice(['pauli1', 'pauli1', '2', '3', 'pauli2'])
        dim = {'pauli1': 2, '2': 2, '3': 3, 'pauli2': 4}[b]
        if fam in ('ginibre', 'redit', 'bcsz'):
            s['rank'] = rng.choice([None, 1, 2, dim])
            if fam == 'bcsz':
                s['rank'] = rng.choice([None, None, 4])
        s['tp'] = rng.random() < .7
        s['second'] = rng.choice(['pauli1', '3'])
        s['int'] = fam in ('ginibre', 'redit') and rng.random() < .2
        s['mean'] = rng.choice([[.7, .3], [.5, .3, .2], [.4, .3, .2, .1], [.55, .45], [.3, .25, .25, .2]])
    return s
