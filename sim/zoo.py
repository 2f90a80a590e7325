"""Model zoo: how scenarios (plain JSON) name models, priors and experiments."""
import math

import numpy as np
import qinfer as q
from qinfer.domains import IntegerDomain

from . import world as W


# ---------------------------------------------------------------------------
# Harness models: small reference systems with properties that none of the
# repository's models has (exactly impossible outcomes, canonical forms,
# deterministic drift, outcome counts that depend on the experiment).

def _mix(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        h = (h ^ (int(x) & 0xFFFFFFFFFFFFFFFF)) * 0xBF58476D1CE4E5B9 & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 29
    return h


class SimModel(q.FiniteOutcomeModel):
    """Parameters (x, y) in [-1, 1]^2; experiments (k, s).

    Outcome probabilities are smooth positive functions of x, y, k, s, except
    that with s >= 2 ("hard" experiments) outcome 0 is exactly impossible for
    particles on one side (on the other side for s >= 3), and with s < 0 outcome 0 is impossible for everyone.
    """
    def __init__(self, n_out=2, varying=False, drift=0.0, canon=False, limit=1.0, tiny=0.0, memo=False):
        self._n_out, self._varying = n_out, varying
        self._drift, self._canon, self._limit, self._tiny = drift, canon, limit, tiny
        super(SimModel, self).__init__()
        self._Q = np.array([1.0, 0.25])
        self.cache_clears = 0
        self._memo = [] if memo else None       # the last answers, given out again for the same question

    n_modelparams = 2
    modelparam_names = ['x', 'y']

    @property
    def expparams_dtype(self):
        return [('k', 'int'), ('s', 'float')]

    @property
    def is_n_outcomes_constant(self):
        return not self._varying

    def n_outcomes(self, expparams):
        if not self._varying:
            return self._n_out
        return self._n_out + expparams['k'] % 3

    def are_models_valid(self, mps):
        return np.all(np.abs(mps) <= self._limit, axis=1)

    def canonicalize(self, mps):
        if not self._canon:
            return mps
        mps = mps.copy()
        mps[:, 0] = np.abs(mps[:, 0]) if mps.shape[1] > 0 else 0
        return mps

    def update_timestep(self, mps, eps):
        out = super(SimModel, self).update_timestep(mps, eps)
        if self._drift:
            out = out.copy()
            out[:, 1, :] = np.clip(out[:, 1, :] + self._drift * (1 + eps['k'] % 2), -1, 1)
        return out

    def experiment_cost(self, eps):
        return 1.0 + 0.25 * (eps['k'] % 4)

    def clear_cache(self):
        self.cache_clears += 1

    def table(self, n_o, mps, ep):
        k, s = int(ep['k']), float(ep['s'])
        x = np.abs(mps[:, 0]) if self._canon else mps[:, 0]
        y = mps[:, 1]
        z = np.stack([
            np.exp(2.0 * math.cos(o + k) * x * (1 + abs(s)) + 0.7 * math.sin(2 * o + k + 1) * y)
            for o in range(n_o)])
        if s >= 2:
            side = x + 0.3 * y > 0
            z[0] = np.where(side if s < 3 else ~side, 0, z[0])
        if s < 0:
            z[0] = 0
            if self._tiny:
                z = z / z.sum(axis=0)
                z[0] = self._tiny
                z[-1] = z[-1] - self._tiny
                return z
        z = z / z.sum(axis=0)
        return z

    def likelihood(self, outcomes, mps, eps):
        super(SimModel, self).likelihood(outcomes, mps, eps)
        if self._memo is not None:
            key = (np.asarray(outcomes).tobytes(), mps.tobytes(), eps.tobytes(), np.asarray(outcomes).dtype.str, mps.shape)
            for k, L in self._memo:
                if k == key:
                    return L
        L = np.zeros((len(outcomes), mps.shape[0], eps.shape[0]))
        for j in range(eps.shape[0]):
            n_o = int(np.ravel(self.n_outcomes(eps[j:j + 1]))[0])
            t = self.table(n_o, mps, eps[j])
            for i, o in enumerate(outcomes):
                L[i, :, j] = t[int(o)] if int(o) < n_o else 0
        if self._memo is not None:
            self._memo.append((key, L))
            del self._memo[:-8]
        return L


class GridPrior(q.Distribution):
    """Deterministic, well spread points; used where exact numbers matter."""
    def __init__(self, n_rvs=2, lo=-0.9, hi=0.9):
        self._n, self.lo, self.hi = n_rvs, lo, hi
        self.calls = []

    @property
    def n_rvs(self):
        return self._n

    def sample(self, n=1):
        g = np.arange(1, n + 1)
        out = np.stack([(g * a) % 1.0 for a in
                        [0.6180339887498949, 0.41421356237309515, 0.7320508075688772][:self._n]], axis=1)
        self.calls.append(n)
        return self.lo + (self.hi - self.lo) * out


class FixedPrior(q.Distribution):
    """Hands out given points in turn."""
    def __init__(self, points):
        self.points = np.array(points, dtype=float)

    @property
    def n_rvs(self):
        return self.points.shape[1]

    def sample(self, n=1):
        return self.points[np.arange(n) % len(self.points)].copy()


class BoxPrior(q.UniformDistribution):
    """Uniform; records the samples it hands out."""
    def __init__(self, *a):
        super(BoxPrior, self).__init__(*a)
        self.handed = []
        self.box = np.array(a[0] if len(a) == 1 else a, dtype=float).reshape(-1, 2)

    def sample(self, n=1):
        s = super(BoxPrior, self).sample(n)
        self.handed.append(s.copy())
        return s


# ---------------------------------------------------------------------------
class Setup(object):
    def __init__(self, model, prior, eps, gen, ref=None, tags=()):
        self.model, self.prior, self._eps, self.gen = model, prior, eps, gen
        self.ref, self.tags = ref, frozenset(tags)

    def eps(self, raws):
        """Array of experiments, shape (n,), from a list of raw (JSON) experiments."""
        return self._eps(self.model, raws)


def _rec(model, raws):
    dt = model.expparams_dtype
    if isinstance(dt, str):
        return np.array([r if not isinstance(r, list) else r[0] for r in raws], dtype=dt)
    out = W.real('np.empty')((len(raws),), dtype=dt)
    for i, r in enumerate(raws):
        for (name, *_), v in zip(dt, r):
            out[str(name)][i] = v
    return out


def _r(rng, a, b, n=4):
    return round(rng.uniform(a, b), n)


def _pr0(outcomes, pr0):
    return np.stack([pr0 if int(o) == 0 else 1 - pr0 for o in outcomes])


def ref_precession(os, mps, eps):
    t = eps if eps.dtype.names is None else eps['t']
    return _pr0(os, np.cos(mps[:, :1] * t[None, :] / 2) ** 2)


def ref_inversion(os, mps, eps):
    return _pr0(os, np.cos((mps[:, :1] - eps['w_'][None, :]) * eps['t'][None, :] / 2) ** 2)


def ref_t2(os, mps, eps):
    t = eps['t'][None, :]
    v = np.exp(-t * mps[:, 1:2])
    return _pr0(os, v * np.cos(mps[:, :1] * t / 2) ** 2 + (1 - v) / 2)


def ref_noisycoin(os, mps, eps):
    return _pr0(os, mps[:, :1] * eps['alpha'][None] + (1 - mps[:, :1]) * eps['beta'][None])


def ref_rb(os, mps, eps):
    if mps.shape[1] == 3:
        p, A, B = mps.T[:, :, None]
        return _pr0(os, 1 - (A * p ** eps['m'].astype(float)[None] + B))
    pt, p, A, B = mps.T[:, :, None]
    pp = np.where(eps['reference'][None], p, pt * p)
    return _pr0(os, 1 - (A * pp ** eps['m'].astype(float)[None] + B))


def ref_ndie(os, mps, eps):
    return np.repeat(mps.T[[int(o) for o in os]][:, :, None], eps.shape[0], axis=2)


def big(rng, n, p=.01, sizes=(257, 300, 1000, 1025, 2500)):
    """Usually n, but now and then a size at which a block, an index or a narrow integer may overflow."""
    return rng.choice(list(sizes)) if rng.random() < p else n


def comb(n, k):
    return math.comb(int(n), int(k)) if 0 <= k <= n else 0


def _shots(counts, ps):
    """Multinomial probability of large counts."""
    from scipy.special import gammaln, xlogy
    return np.exp(gammaln(sum(counts) + 1) - sum(gammaln(c + 1) for c in counts) + sum(xlogy(c, p) for c, p in zip(counts, ps)))


def ref_binomial(ref1, strip):
    def f(os, mps, eps):
        p1 = ref1([1], mps, strip(eps))[0]
        out = np.zeros((len(os), mps.shape[0], eps.shape[0]))
        for j in range(eps.shape[0]):
            n = int(eps['n_meas'][j])
            for i, o in enumerate(os):
                o = int(o)
                if n > 200 and 0 <= o <= n:
                    out[i, :, j] = _shots([o, n - o], [p1[:, j], 1 - p1[:, j]])
                    continue
                out[i, :, j] = comb(n, o) * p1[:, j] ** o * (1 - p1[:, j]) ** (n - o) if 0 <= o <= n else 0
        return out
    return f


def ref_multinomial(ref1, k, strip):
    def f(os, mps, eps):
        p = ref1(list(range(k)), mps, strip(eps))
        out = np.zeros((len(os), mps.shape[0], eps.shape[0]))
        for i, o in enumerate(os):
            c = [int(v) for v in o['k']] if getattr(o, 'dtype', None) is not None and o.dtype.names else [int(v) for v in o]
            if sum(c) > 150:
                out[i] = _shots(c, p)
                continue
            co = math.factorial(sum(c))
            for v in c:
                co //= math.factorial(v)
            out[i] = co * np.prod([p[a] ** c[a] for a in range(k)], axis=0)
        return out
    return f


def ref_gausshyper(ref1, n):
    def f(os, mps, eps):
        L = ref1([0, 1], mps[:, :n], eps)
        out = np.zeros((len(os), mps.shape[0], eps.shape[0]))
        for i, o in enumerate(os):
            for b in (0, 1):
                mu, s2 = mps[:, n + b], mps[:, n + 2 + b]
                out[i] += L[b] * (np.exp(-(float(o) - mu) ** 2 / (2 * s2)) / np.sqrt(2 * np.pi * s2))[:, None]
        return out
    return f


def ref_tomo(os, mps, eps):
    p1 = np.clip(mps @ eps['meas'].T, 0, 1)
    return _pr0(os, 1 - p1)


KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


@kind
def precession(spec):
    m = q.SimplePrecessionModel(*spec.get('args', []))
    return Setup(m, BoxPrior([0, 1]), _rec, lambda rng: _r(rng, 0.2, 25), ref_precession, ['diff', 'finite'])


@kind
def inversion(spec):
    return Setup(q.SimpleInversionModel(), BoxPrior([0, 1]), _rec,
                 lambda rng: [_r(rng, 0.2, 25), _r(rng, 0, 1)], ref_inversion, ['diff', 'finite'])


@kind
def t2(spec):
    return Setup(q.UnknownT2Model(), BoxPrior([[0, 1], [0.1, 0.4]]), _rec,
                 lambda rng: [_r(rng, 0.2, 15)], ref_t2, ['finite'])


@kind
def coin(spec):
    return Setup(q.CoinModel(), BoxPrior([0.05, 0.95]), lambda m, raws: W.real('np.empty')((len(raws),), dtype=[]),
                 lambda rng: [], lambda os, mps, eps: _pr0(os, np.repeat(mps[:, :1], len(eps), axis=1)),
                 ['diff', 'finite'])


@kind
def noisycoin(spec):
    return Setup(q.NoisyCoinModel(), BoxPrior([0.02, 0.98]), _rec,
                 lambda rng: [_r(rng, 0.7, 1), _r(rng, 0, 0.3)], ref_noisycoin, ['finite'])


@kind
def ndie(spec):
    n = spec.get('n', 3)
    # Weights are renormalised up to rounding by the prior; resampling keeps sums.
    return Setup(q.NDieModel(n, threshold=1e-6), q.DirichletDistribution([1.5] * n), _rec,
                 lambda rng: [rng.randrange(5)], ref_ndie, ['finite'])


@kind
def rb(spec):
    return Setup(q.RandomizedBenchmarkingModel(), BoxPrior([[0.7, 1], [0.2, 0.5], [0.3, 0.5]]), _rec,
                 lambda rng: [rng.randrange(1, 60)], ref_rb, ['diff', 'finite'])


@kind
def rbi(spec):
    return Setup(q.RandomizedBenchmarkingModel(interleaved=True),
                 BoxPrior([[0.7, 1], [0.7, 1], [0.2, 0.5], [0.3, 0.5]]), _rec,
                 lambda rng: [rng.randrange(1, 60), rng.random() < .5], ref_rb, ['diff', 'finite'])


@kind
def binomial(spec):
    b = make(spec.get('base', {'kind': 'precession'}))
    cls = q.BinomialModel
    m = cls(b.model)
    nm = spec.get('max', 8)
    if isinstance(b.model.expparams_dtype, str):
        gen = lambda rng: [b.gen(rng), rng.randrange(1, nm + 1)]
        strip = lambda e: e['x']
    else:
        gen = lambda rng: list(b.gen(rng)) + [rng.randrange(1, nm + 1)]
        strip = lambda e: e
    return Setup(m, b.prior, _rec, gen, ref_binomial(b.ref, strip), ['finite', 'varying'])


@kind
def multinomial(spec):
    b = make(spec.get('base', {'kind': 'ndie', 'n': spec.get('n', 3)}))
    m = q.MultinomialModel(b.model)
    if 'base' in spec:
        return Setup(m, b.prior, _rec, lambda rng: list(b.gen(rng)) + [rng.randrange(1, spec.get('max', 3) + 1)],
                     ref_multinomial(b.ref, int(b.model.n_outcomes(None)), lambda e: e), ['finite', 'varying', 'vector'])

    def gen(rng):
        return [rng.randrange(5), rng.randrange(1, spec.get('max', 3) + 1)]
    return Setup(m, b.prior, _rec, gen, ref_multinomial(ref_ndie, spec.get('n', 3), lambda e: e),
                 ['finite', 'varying', 'vector'])


@kind
def gausshyper(spec):
    b = make({'kind': 'noisycoin'})
    m = q.GaussianHyperparameterizedModel(b.model)
    prior = BoxPrior([[0.02, 0.98], [-1, 0], [1, 2], [0.2, 0.5], [0.2, 0.5]])
    return Setup(m, prior, _rec, b.gen, ref_gausshyper(ref_noisycoin, 1), ['real'])


@kind
def randomwalk(spec):
    b = make(spec.get('base', {'kind': 'precession'}))
    n = b.model.n_modelparams
    step = q.UniformDistribution([[-0.002, 0.002]] * n)
    return Setup(q.RandomWalkModel(b.model, step), b.prior, b._eps, b.gen, b.ref, b.tags | {'drift'})


@kind
def grw(spec):
    b = make(spec.get('base', {'kind': 'precession'}))
    n = b.model.n_modelparams
    kw = {}
    prior = b.prior
    mode = spec.get('mode', 'fixed')
    idxs = spec.get('idxs', 'all')
    k = n if idxs == 'all' else len(idxs)
    if mode == 'fixed':
        kw['fixed_covariance'] = np.array([4e-6] * k)
        ref = b.ref
    elif mode == 'dense':
        A = np.tril(np.ones((k, k))) * 0.002
        kw.update(fixed_covariance=A.dot(A.T), diagonal=False)
        ref = b.ref
    elif mode == 'learned':
        rng = [list(r) for r in _box(b.prior)] + [[1e-5, 4e-4]] * k
        prior = BoxPrior(rng)
        ref = lambda os, mps, eps: b.ref(os, mps[:, :n], eps)
    else:
        rng = [list(r) for r in _box(b.prior)] + [[1e-5, 4e-4]] * (k * (k + 1) // 2)
        prior = BoxPrior(rng)
        kw['diagonal'] = False
        ref = lambda os, mps, eps: b.ref(os, mps[:, :n], eps)
    if spec.get('scale'):
        kw['scale_mult'] = spec['scale']
    if idxs != 'all':
        kw['random_walk_idxs'] = idxs
    m = q.GaussianRandomWalkModel(b.model, **kw)
    return Setup(m, prior, b._eps, b.gen, ref, b.tags | {'drift', 'grw'})


def _box(prior):
    return prior.box


@kind
def mle(spec):
    b = make(spec.get('base', {'kind': 'precession'}))
    p = spec.get('pow', 2.0)
    return Setup(q.MLEModel(b.model, p), b.prior, b._eps, b.gen,
                 lambda os, mps, eps: b.ref(os, mps, eps) ** p, (b.tags - {'finite'}) | {'unnormalised'})


@kind
def poisoned(spec):
    b = make(spec.get('base', {'kind': 'precession'}))
    kw = spec.get('kw', {'tol': 0.02})
    return Setup(q.PoisonedModel(b.model, **kw), b.prior, b._eps, b.gen, b.ref, b.tags | {'noisy'})


@kind
def tomo(spec):
    from qinfer.tomography import TomographyModel, GinibreDistribution, pauli_basis, gell_mann_basis
    d = spec.get('dim', 2)
    basis = pauli_basis(1) if d == 2 else gell_mann_basis(d)
    m = TomographyModel(basis, **spec.get('kw', {}))

    def gen(rng):
        v = [rng.gauss(0, 1) for _ in range(2 * d)]
        psi = np.array(v[:d]) + 1j * np.array(v[d:])
        psi = psi / np.linalg.norm(psi)
        P = np.outer(psi, psi.conj())
        vec = np.real(basis.flat().conj() @ P.flatten())
        return [[round(float(x), 12) for x in vec]]
    return Setup(m, GinibreDistribution(basis), _rec, gen, ref_tomo, ['finite', 'tomo', 'canon'])


@kind
def sim(spec):
    m = SimModel(**spec.get('kw', {}))
    prior = GridPrior(2) if spec.get('grid') else BoxPrior([[-.9, .9], [-.9, .9]])
    hard = spec.get('hard', 0.0)

    def gen(rng):
        k = rng.randrange(6)
        return [k, 2.0 if rng.random() < hard else _r(rng, 0.1, 1.5)]
    tags = {'finite', 'sim'}
    if spec.get('kw', {}).get('varying'):
        tags.add('varying')
    if spec.get('kw', {}).get('drift'):
        tags.add('drift')
    if spec.get('kw', {}).get('canon'):
        tags.add('canon')

    def ref(os, mps, eps):
        return SimModel(**spec.get('kw', {})).likelihood(os, mps, eps)
    return Setup(m, prior, _rec, gen, ref, tags)


def make(spec):
    return KINDS[spec['kind']](spec)


P = {'kind': 'precession'}
STATIC = [
    P, {'kind': 'inversion'}, {'kind': 't2'}, {'kind': 'coin'}, {'kind': 'noisycoin'},
    {'kind': 'ndie', 'n': 3}, {'kind': 'ndie', 'n': 4}, {'kind': 'rb'}, {'kind': 'rbi'},
    {'kind': 'binomial', 'base': P}, {'kind': 'binomial', 'base': {'kind': 'noisycoin'}},
    {'kind': 'binomial', 'base': {'kind': 'rb'}},
    {'kind': 'multinomial', 'n': 3}, {'kind': 'gausshyper'}, {'kind': 'tomo', 'dim': 2},
    {'kind': 'sim'}, {'kind': 'sim', 'kw': {'n_out': 3}},
    {'kind': 'sim', 'kw': {'n_out': 2, 'varying': True}},
    {'kind': 'sim', 'kw': {'canon': True}},
    {'kind': 'sim', 'kw': {'n_out': 3}, 'hard': 0.4}, {'kind': 'sim', 'kw': {'memo': True, 'n_out': 3}},
    {'kind': 'sim', 'kw': {'varying': True, 'canon': True}, 'hard': 0.3, 'grid': True},
]
DRIFTING = [
    {'kind': 'randomwalk', 'base': P}, {'kind': 'randomwalk', 'base': {'kind': 't2'}},
    {'kind': 'grw', 'base': P}, {'kind': 'grw', 'base': {'kind': 't2'}, 'mode': 'dense'},
    {'kind': 'grw', 'base': {'kind': 't2'}, 'mode': 'learned', 'scale': 't'},
    {'kind': 'grw', 'base': {'kind': 't2'}, 'mode': 'learned_dense'},
    {'kind': 'grw', 'base': {'kind': 't2'}, 'idxs': [1], 'mode': 'learned'},
    {'kind': 'sim', 'kw': {'drift': 0.03}}, {'kind': 'sim', 'kw': {'drift': -0.05, 'varying': True}},
    {'kind': 'binomial', 'base': {'kind': 'randomwalk', 'base': P}},
]


def outcome_values(model, ep1):
    """Outcomes of the (single) experiment ep1, as an array."""
    return model.domain(ep1)[0].values


def choose_outcome(setup, model, ep1, locs, w, u, rare=False, floor=1e-7):
    """Deterministically picks an outcome that is possible under the particles."""
    if 'real' in setup.tags:
        n = locs.shape[1] - 4
        b = 0 if u < .5 else 1
        return float(np.round(np.dot(w, locs[:, n + b]) + (u - .5) * 0.6, 4))
    vals = outcome_values(model, ep1)
    pr = (setup.ref(vals, locs, ep1)[:, :, 0] * w).sum(axis=1)
    ok = np.nonzero(pr > floor)[0]
    if not len(ok):
        return None
    if rare:
        return vals[ok[np.argmin(pr[ok])]]
    c = np.cumsum(pr[ok])
    return vals[ok[min(int(np.searchsorted(c / c[-1], u)), len(ok) - 1)]]


def as_outcomes(o):
    """Array of one outcome."""
    if isinstance(o, (np.void, np.ndarray)):
        return np.asarray(o).reshape((1,))
    return np.array([o])


# ---------------------------------------------------------------------------
class Probe(object):
    """Event log and fault plan shared by an instrumented model and resampler."""
    def __init__(self, w):
        self.w = w
        self.events = []
        self.calls = {}
        self.plan = {}            # (method, n-th call) -> (when, kind)
        self.on = True
        self.fired, self.raised = [], None
        self.rng_at = {}          # method -> state of NumPy's random source on entry

    def arm(self, method, nth=0, when='before', kind='error'):
        """Makes the nth call from now of method fail."""
        self.plan[(method, self.calls.get(method, 0) + nth)] = (when, kind)

    def disarm(self):
        self.plan.clear()

    def enter(self, method):
        n = self.calls.get(method, 0)
        self.calls[method] = n + 1
        self.w.step()
        if method == 'resampler':
            self.rng_at[method] = np.random.get_state()
        f = self.plan.pop((method, n), None)
        if f and f[0] == 'before':
            self.fire(method, f)
        return f

    def leave(self, method, f):
        if f:
            self.fire(method, f)

    def fire(self, method, f):
        self.w.fault('{} fails {} ({})'.format(method, f[0], f[1]))
        self.fired.append(f[1])
        cls = {'interrupt': W.SimInterrupt, 'memory': MemoryError, 'float': FloatingPointError,
               'stop': StopIteration, 'value': ValueError, 'key': KeyError}.get(f[1], W.SimFault)
        self.raised = cls('injected failure of ' + method)
        raise self.raised


def instrument(model, probe):
    """Turns model into an instance of a dynamic subclass that reports to probe."""
    cls = type(model)

    class Inst(cls):
        def likelihood(self, outcomes, modelparams, expparams):
            f = probe.enter('likelihood')
            L = super(Inst, self).likelihood(outcomes, modelparams, expparams)
            probe.leave('likelihood', f)
            return L

        def update_timestep(self, modelparams, expparams):
            f = probe.enter('update_timestep')
            a = np.array(modelparams)
            out = super(Inst, self).update_timestep(modelparams, expparams)
            if probe.on:
                probe.events.append(('T', a, np.array(expparams), np.array(out)))
            probe.leave('update_timestep', f)
            return out

        def are_models_valid(self, modelparams):
            f = probe.enter('are_models_valid')
            out = super(Inst, self).are_models_valid(modelparams)
            probe.leave('are_models_valid', f)
            return out

        def canonicalize(self, modelparams):
            f = probe.enter('canonicalize')
            out = super(Inst, self).canonicalize(modelparams)
            probe.leave('canonicalize', f)
            return out

        def clear_cache(self):
            f = probe.enter('clear_cache')
            out = super(Inst, self).clear_cache()
            probe.leave('clear_cache', f)
            return out

        def simulate_experiment(self, modelparams, expparams, repeat=1):
            f = probe.enter('simulate_experiment')
            out = super(Inst, self).simulate_experiment(modelparams, expparams, repeat)
            probe.leave('simulate_experiment', f)
            return out
    Inst.__name__ = cls.__name__
    Inst.__qualname__ = cls.__qualname__
    model.__class__ = Inst
    return model


class ProbePrior(object):
    """Delegates to a prior, whose sampling can be made to fail."""
    def __init__(self, inner, probe):
        self.inner, self.probe = inner, probe

    @property
    def n_rvs(self):
        return self.inner.n_rvs

    def sample(self, n=1):
        f = self.probe.enter('prior')
        out = self.inner.sample(n=n)
        self.probe.leave('prior', f)
        return out


class ProbeResampler(object):
    """Delegates to a resampler and reports what it was given and returned."""
    def __init__(self, inner, probe):
        self.inner, self.probe = inner, probe

    def __call__(self, model, dist, *a, **k):
        f = self.probe.enter('resampler')
        wt, lc = np.array(dist.particle_weights), np.array(dist.particle_locations)
        import warnings
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            out = self.inner(model, dist, *a, **k)
        for c in caught:
            warnings.warn(c.message, c.category)
        if self.probe.on:
            self.probe.events.append(('R', wt, lc, np.array(out.particle_weights),
                                      np.array(out.particle_locations),
                                      [c.category.__name__ for c in caught], np.array(dist.particle_weights)))
        self.probe.leave('resampler', f)
        return out


def warned(fn, *a, **k):
    """Runs fn; returns (result, list of warning categories)."""
    import warnings
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        r = fn(*a, **k)
    return r, [c.category for c in caught]
