"""C20: time-dependent models take exactly one time step per accepted update."""
import warnings

import numpy as np
import qinfer as q
import scipy.stats as ss

from .. import shadow, stats, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run drives an updater with a drifting model (any random-walk configuration, possibly decorated further) through accepted, '
        'rejected, failing and hypothetical data; a reference filter checks that each accepted datum moves every particle by one time step '
        'taken after the likelihood; all observed steps are whitened with the declared distribution and tested.')
REAL = ['qinfer.smc', 'qinfer.derived_models (random walks and decorators above them)', 'qinfer.distributions', 'qinfer.resamplers']
STUB = ['model failures', 'random source', 'uninitialised memory', 'models with impossible outcomes']
STATES = 'hash of (walk configuration, operation, updates so far, outcome)'
RUNS = dict(quick=6000, thorough=160000)
CHUNK = 8
NEEDS_OPS = False

BASES = dict(precession={'kind': 'precession'}, t2={'kind': 't2'}, rb={'kind': 'rb'}, rbi={'kind': 'rbi'}, noisycoin={'kind': 'noisycoin'},
             sim={'kind': 'sim'}, simv={'kind': 'sim', 'kw': {'varying': True}}, inversion={'kind': 'inversion'})
FIELD = dict(t2='t', rb='m', rbi='m', noisycoin='alpha', sim='s', simv='k', inversion='t')


class _Exp(object):
    def __init__(self, inv):
        self.inv = inv

    def __call__(self, x):
        return np.exp(x) if self.inv else np.log(x)


class _Mix(object):
    def __init__(self, n, inv):
        M = np.eye(n) + .4 * np.tril(np.ones((n, n)), -1)
        self.M = np.linalg.inv(M) if inv else M
        self.b = .3 if not inv else 0
        self.c = .3 if inv else 0

    def __call__(self, x):
        return (x - self.c).dot(self.M.T) + self.b


class _Skew(q.Distribution):
    """Zero-mean steps whose distribution is not symmetrical."""
    def __init__(self, n, sigma):
        self.n, self.sigma = n, sigma

    @property
    def n_rvs(self):
        return self.n

    def sample(self, n=1):
        return (np.random.exponential(size=(n, self.n)) - 1) * self.sigma * np.arange(1, self.n + 1)


class _Scale(object):
    """A scale multiplier as an arbitrary function of the experiments."""
    def __init__(self, field):
        self.field = field

    def __call__(self, e):
        x = e[self.field] if self.field and e.dtype.names else np.asarray(e, dtype=float)
        return .5 + 1.5 / (1 + np.abs(x.astype(float)))


def _idx(spec, n):
    i = spec['idxs']
    if i == 'all':
        return 'all', list(range(n))
    if isinstance(i, list):
        return np.array(i) if spec.get('as') == 'array' else list(i), list(i)
    s = slice(*i['slice'])
    return s, list(range(n))[s]


def _walk(spec):
    b = zoo.make(BASES[spec['base']])
    n = b.model.n_modelparams
    sig = spec['sigma']
    prior, ref = b.prior, b.ref
    info = dict(n=n, kind=spec['walk'])
    if spec['walk'] == 'rw':
        if spec['step'] == 'uniform':
            m = q.RandomWalkModel(b.model, q.UniformDistribution([[-sig * (j + 1), sig * (j + 1)] for j in range(n)]))
        elif spec['step'] == 'skew':
            m = q.RandomWalkModel(b.model, _Skew(n, sig))
        elif spec['step'] == 'mvn':
            A = sig * (np.tril(np.ones((n, n))) + .5 * np.eye(n))
            info['chol'] = A
            m = q.RandomWalkModel(b.model, q.MultivariateNormalDistribution(np.zeros(n), A.dot(A.T)))
        else:
            m = q.RandomWalkModel(b.model, q.ProductDistribution(*[q.NormalDistribution(0, (sig * (j + 1)) ** 2) for j in range(n)])
                                  if n > 1 else q.NormalDistribution(0, sig ** 2))
        info.update(step=spec['step'], sigma=sig, rows=list(range(n)))
    else:
        arg, rows = _idx(spec, n)
        k = len(rows)
        kw = {}
        if spec['idxs'] != 'all':
            kw['random_walk_idxs'] = arg
        if spec['walk'] == 'fixed':
            var = np.array([(sig * (1 + .7 * j)) ** 2 for j in range(k)])
            kw['fixed_covariance'] = var
            info['chol'] = np.diag(np.sqrt(var))
        elif spec['walk'] == 'dense':
            A = sig * (np.tril(np.ones((k, k))) * -.6 + 1.8 * np.eye(k))
            kw.update(fixed_covariance=A.dot(A.T), diagonal=False)
            info['chol'] = A
        else:
            extra = k if spec['walk'] == 'learned' else k * (k + 1) // 2
            rng = [list(r) for r in (zoo._box(b.prior))]
            prior = zoo.BoxPrior(rng + [[sig / 2 + sig * j / 3, sig + sig * j / 3] for j in range(extra)])
            ref = lambda os, mps, eps: b.ref(os, mps[:, :n], eps)
            if spec['walk'] == 'learned_dense':
                kw['diagonal'] = False
        info.update(rows=rows)
        if spec.get('scale') == 'field':
            kw['scale_mult'] = FIELD[spec['base']]
            info['scale'] = lambda e: e[FIELD[spec['base']]].astype(float)
        elif spec.get('scale') == 'fn':
            kw['scale_mult'] = _Scale(FIELD.get(spec['base']))
            info['scale'] = _Scale(FIELD.get(spec['base']))
        if spec.get('transform'):
            info['T'], inv = (_Exp(0), _Exp(1)) if spec['transform'] == 'log' else (_Mix(n, 0), _Mix(n, 1))
            kw['model_transformation'] = (info['T'], inv)
        m = q.GaussianRandomWalkModel(b.model, **kw)
    s = zoo.Setup(m, prior, b._eps, b.gen, ref, b.tags | {'drift'})
    s.walk = info
    return s


zoo.KINDS['walk'] = _walk


def _above(spec):
    """A decoration of a drifting model."""
    b = zoo.make(spec['base'])
    how = spec['how']
    if how == 'mle':
        m, ref = q.MLEModel(b.model, 1.0), b.ref
    elif how == 'binomial':
        s = zoo.binomial(dict(base=spec['base'], max=3))
        s.walk = b.walk
        if 'scale' in b.walk and isinstance(b.model.expparams_dtype, str):
            s.walk = dict(b.walk, scale=lambda e: b.walk['scale'](e['x']))
        return s
    s = zoo.Setup(m, b.prior, b._eps, b.gen, ref, b.tags)
    s.walk = b.walk
    return s


zoo.KINDS['above'] = _above


def _difftomo(spec):
    """Tomography of a diffusing state, each particle with its own rate."""
    from qinfer.tomography import DiffusiveTomographyModel, GinibreDistribution, gell_mann_basis, pauli_basis
    t = zoo.tomo(dict(dim=spec['dim']))
    d = spec['dim']
    basis = pauli_basis(1) if d == 2 else gell_mann_basis(d)
    prior = q.ProductDistribution(GinibreDistribution(basis), q.UniformDistribution([spec['sigma'], 8 * spec['sigma']]))
    s = zoo.Setup(DiffusiveTomographyModel(basis), prior, zoo._rec,
                  lambda rng: list(t.gen(rng)) + [rng.choice([0.25, 1.0, 4.0, round(rng.uniform(.01, 5), 4)])],
                  lambda os, mps, eps: t.ref(os, mps[:, :-1], eps), t.tags | {'drift'})
    s.walk = dict(kind='tomo', n=d * d + 1, rows=list(range(1, d * d)), data=basis.data)
    return s


zoo.KINDS['difftomo'] = _difftomo


def gen_spec(rng):
    if rng.random() < .06:
        spec = dict(kind='difftomo', dim=rng.choice([2, 2, 3]), sigma=rng.choice([1e-3, 4e-3, .02]))
        return dict(kind='above', base=spec, how='mle') if rng.random() < .2 else spec
    base = rng.choice(sorted(BASES))
    n = dict(precession=1, t2=2, rb=3, rbi=4, noisycoin=1, sim=2, simv=2, inversion=1)[base]
    spec = dict(kind='walk', base=base, walk=rng.choice(['rw', 'fixed', 'dense', 'learned', 'learned_dense']), sigma=rng.choice([1e-3, 4e-3, .02]))
    if rng.random() < .06:
        spec['sigma'] = rng.choice([1e-5, 1e-8])
    if spec['walk'] == 'rw':
        spec['step'] = rng.choice(['uniform', 'normal', 'mvn', 'skew'])
    else:
        opts = ['all', [0], [n - 1], dict(slice=[n - 1, n]), dict(slice=[0, 1])]
        if n > 2:
            opts += [[0, 2], dict(slice=[1, 3]), dict(slice=[0, n, 2]), [2, 0]]
        if n > 1:
            opts += [[1, 0]] if rng.random() < .3 else []
        spec['idxs'] = rng.choice(opts)
        if rng.random() < .3:
            spec['as'] = 'array'
        spec['scale'] = rng.choice([None, None, 'fn', 'field'])
        if base == 'precession' and spec['scale'] == 'field':
            spec['scale'] = 'fn'
        if rng.random() < .3:
            spec['transform'] = rng.choice(['mix', 'mix', 'log']) if base in ('t2', 'rb', 'rbi') else 'mix'
    if rng.random() < .25:
        # (binomial decorations need two-outcome models)
        how = rng.choice(['mle', 'binomial']) if base not in ('simv',) else 'mle'
        spec = dict(kind='above', base=spec, how=how)
    return spec


def generate(rng, i, tier):
    spec = gen_spec(rng)
    setup = zoo.make(spec)
    cfg = dict(model=spec, n=rng.choice([2, 10, 50, 150, 400]), thresh=rng.choice([0.0, .3, .5, .9]), canonicalize=rng.random() < .8,
               lw=dict(a=rng.choice([.98, .9, 1.0])), kw=dict(zero_weight_policy=rng.choice(['skip', 'error', 'reset'])))
    ops = []
    simple = 'sim' in setup.tags
    for _ in range(rng.randrange(3, 14)):
        x = rng.random()
        ep = setup.gen(rng)
        op = dict(ep=ep, u=round(rng.random(), 6))
        if x < .45:
            op.update(op='upd', chk=rng.random() < .7)
        elif x < .5:
            op.update(op='batch', eps=[setup.gen(rng) for _ in range(rng.randrange(1, 5))], iv=rng.randrange(1, 4))
        elif x < .65:
            op.update(op='query', kind=rng.randrange(8), eps=[setup.gen(rng) for _ in range(rng.randrange(1, 4))])
        elif x < .75 and simple:
            ep = list(ep)
            ep[1] = -1.0
            op.update(op='imp', ep=ep)
        elif x < .82:
            op.update(op='fail', where=rng.choice(['likelihood', 'update_timestep', 'update_timestep']), when=rng.choice(['before', 'after']))
        elif x < .86:
            op.update(op='resample')
        else:
            op.update(op='step', eps=[setup.gen(rng) for _ in range(rng.choice([1, 2, 3, 7]))], n=rng.choice([1, 2, 30, 400, 1500]))
        ops.append(op)
    return dict(config=cfg, ops=ops, faults=[])


class Steps(object):
    """Whitens steps and accumulates them."""
    def __init__(self, walk):
        self.walk, self.z, self.pairs = walk, [], dict(particle=[], experiment=[], parameter=[], time=[])
        self.last = None

    def add(self, old, eps, new, what):
        """old (n, d), new (n, d, n_eps)"""
        w, n = self.walk, self.walk['n']
        ne = len(eps)
        if new.shape != old.shape + (ne,):
            raise Violation('timestep-shape', '{}: {} for {} and {} experiments'.format(what, new.shape, old.shape, ne))
        if not np.all(np.isfinite(new)):
            raise Violation('timestep-not-finite', what)
        d = old.shape[1]
        rows = w['rows']
        if w['kind'] == 'tomo':
            if not np.all(new[:, -1] == old[:, -1:]):
                raise Violation('other-parameter-moved', '{}: the rate'.format(what))
            if np.max(np.abs(new[:, 0] - old[:, :1])) > 1e-6:
                raise Violation('other-parameter-moved', '{}: the trace by {}'.format(what, np.max(np.abs(new[:, 0] - old[:, :1]))))
            if np.any(np.all(new[:, 1:-1] == old[:, 1:-1, None], axis=1)):
                raise Violation('particle-did-not-move', what)
            # States well inside the cone are not affected by the repair of those that leave it. (Steps for several
            # experiments at once share their noise.)
            e = len(self.z) % ne
            s = old[:, -1] * np.sqrt(eps['t'][e])
            low = np.linalg.eigvalsh(np.einsum('ni,ijk->njk', old[:, :-1], w['data']))[:, 0]
            ok = (low > 14 * s) & (s > 0)
            if ok.any():
                self.take((new[ok, 1:-1, e] - old[ok, 1:-1])[:, :, None] / s[ok, None, None])
            return
        keep = [j for j in range(d) if j not in rows]
        for j in (keep if 'T' not in w else range(n, d)):
            if not np.all(new[:, j, :] == old[:, j, None]):
                raise Violation('other-parameter-moved', '{}: parameter {} of {}'.format(what, j, d))
        if 'T' in w:
            t = w['T']
            delta = np.stack([t(new[:, :n, e]) - t(old[:, :n]) for e in range(ne)], axis=2)
            if not np.all(np.isfinite(delta)):
                return
            tol = 1e-10
            for j in range(n):
                if j not in rows and np.max(np.abs(delta[:, j, :]), initial=0) > tol:
                    raise Violation('other-parameter-moved', '{}: transformed parameter {} by {}'.format(what, j, np.max(np.abs(delta[:, j]))))
        else:
            delta = new[:, :n] - old[:, :n, None]
        delta = delta[:, rows, :]
        k = len(rows)
        if 'scale' in w:
            s = np.asarray(w['scale'](eps), dtype=float)
            for e in range(ne):
                if s[e] == 0 and np.any(np.abs(delta[:, :, e]) > 1e-9):
                    raise Violation('step-at-zero-scale', what)
            ok = s != 0
            if not ok.any():
                return
            delta = delta[:, :, ok] / s[ok]
        if w['kind'] in ('learned', 'learned_dense'):
            par = old[:, n:]
            C = np.zeros((len(old), k, k))
            if w['kind'] == 'learned':
                C[:, range(k), range(k)] = par
            else:
                a, b = np.tril_indices(k)
                C[:, a, b] = par
            good = np.min(np.abs(C[:, range(k), range(k)]), axis=1) > 1e-7
            C, delta = C[good], delta[good]
            if not len(C):
                return
            z = np.linalg.solve(C, delta)
        elif 'chol' in w:
            z = np.einsum('ij,nje->nie', np.linalg.inv(w['chol']), delta)
        else:
            sc = w['sigma'] * np.arange(1, k + 1)[None, :, None]
            z = delta / sc
            if w['step'] == 'uniform':
                if np.max(np.abs(z)) > 1 + 1e-7:
                    raise Violation('step-outside-support', '{}: {}'.format(what, np.max(np.abs(z))))
                z = ss.norm.ppf(np.clip((z + 1) / 2, 1e-15, 1 - 1e-15))
            elif w['step'] == 'skew':
                if np.min(z) < -1 - 1e-7:
                    raise Violation('step-outside-support', '{}: {}'.format(what, np.min(z)))
                z = -ss.norm.ppf(np.clip(np.exp(-np.maximum(z + 1, 0)), 1e-15, 1 - 1e-15))
        self.take(z)

    def take(self, z):
        self.z.append(z.ravel())
        self.pairs['particle'].append((z[:-1] * z[1:]).ravel())
        self.pairs['experiment'].append((z[:, :, :-1] * z[:, :, 1:]).ravel())
        self.pairs['parameter'].append((z[:, :-1] * z[:, 1:]).ravel())
        if self.last is not None and self.last.shape[:2] == z.shape[:2]:
            self.pairs['time'].append((self.last[:, :, 0] * z[:, :, 0]).ravel())
        self.last = z

    def test(self, w):
        if not self.z:
            return
        z = np.concatenate(self.z)
        w.notes['steps tested'] += len(z)
        if np.max(np.abs(z)) > 10:
            raise Violation('step-size', 'a step of {} standard deviations'.format(np.max(np.abs(z))))
        if len(z) >= 20 and not stats.normal_ok(z):
            raise Violation('step-distribution', 'whitened steps: mean {} standard deviation {} of {}'.format(z.mean(), z.std(), len(z)))
        for k, v in self.pairs.items():
            v = np.concatenate(v) if v else np.zeros(0)
            if len(v) >= 500 and abs(v.mean()) * np.sqrt(len(v)) > 8.5:
                raise Violation('steps-dependent-' + k, 'correlation {} of {} pairs'.format(v.mean(), len(v)))


def _sane(setup, sh, ep):
    with np.errstate(all='ignore'):
        for base in (setup.ref,):
            L = base(zoo.outcome_values(sh.twin.model, ep), sh.x, ep)
    ok = np.all(np.isfinite(L)) and np.all(L > -1e-12) and np.all(L < 1 + 1e-9)
    if ok and setup.prior.n_rvs >= 3 and 'm' in (ep.dtype.names or ()):
        ok = sh.twin.model.are_models_valid(sh.x).all()
    return ok


def execute(sc, w):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, w)


def _run(sc, w):
    c = sc['config']
    u, sh, setup, probe = shadow.build(sc, w)
    steps = Steps(setup.walk)
    pol = c['kw']['zero_weight_policy']
    m = setup.model
    moves = lambda: [e for e in probe.events if e[0] == 'T']
    key = str(sorted((a, str(b)) for a, b in (c['model'].get('base') if isinstance(c['model'].get('base'), dict) else c['model']).items() if a != 'sigma'))
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({})'.format(k, op['op'])
        ep = setup.eps([op['ep']])
        probe.events[:] = []
        out = None
        if op['op'] != 'step' and not all(_sane(setup, sh, setup.eps([r])) for r in [op['ep']] + op.get('eps', [])):
            w.notes['drifted out of the domain of the model'] += 1
            break
        if op['op'] in ('upd', 'fail'):
            o = sh.pick(op, ep)
            if o is None:
                continue
            if float(np.sum(sh.w * sh.L(o, ep))) < 1e-9:
                continue
            before = shadow.snapshot(u)
            if op['op'] == 'fail':
                probe.arm(op['where'], 0, op['when'])
                try:
                    u.update(o, ep)
                except W.SimFault:
                    out = 'failed'
                probe.disarm()
                if out == 'failed':
                    d = shadow.same_snapshot(before, shadow.snapshot(u))
                    if d:
                        raise Violation('failed-update-changed-' + d, what)
                    probe.events[:] = []
                op = dict(op, chk=True)
                if out is None:
                    raise Violation('time-step-not-taken', '{}: {} was not called'.format(what, op['where']))
            u.update(o, ep, check_for_resample=op['chk'])
            for e in moves():
                steps.add(e[1], e[2], e[3], what)
            sh.bayes(o, ep)
            if op['chk']:
                sh.maybe_resample()
        elif op['op'] == 'batch':
            os, es = [], []
            loc = sh.x
            for raw in op['eps']:
                e = setup.eps([raw])
                o = zoo.choose_outcome(setup, sh.twin.model, e, loc, sh.w, op['u'])
                if o is not None:
                    os.append(o)
                    es.append(raw)
            if not os:
                continue
            arr, eps = np.array(os, dtype=np.asarray(os[0]).dtype), setup.eps(es)
            n0 = len(u.data_record)
            try:
                u.batch_update(arr, eps, resample_interval=op['iv'])
            except (RuntimeError, AssertionError):
                raise W.Abandon('a datum of a batch became impossible')
            if len(u.data_record) - n0 != len(arr) or len(moves()) != len(arr):
                if pol in ('skip', 'reset') and len(moves()) < len(arr):
                    raise W.Abandon('a datum of a batch became impossible')
                raise Violation('steps-in-batch', '{}: {} time steps for {} data'.format(what, len(moves()), len(arr)))
            for e in moves():
                steps.add(e[1], e[2], e[3], what)
            for j in range(len(arr)):
                sh.bayes(arr[j], eps[j:j + 1])
                if (j + 1) % op['iv'] == 0:
                    sh.maybe_resample()
        elif op['op'] == 'query':
            eps = setup.eps(op['eps'])
            before = shadow.snapshot(u)
            kind = op['kind']
            if kind < 3:
                u.hypothetical_update(zoo.outcome_values(m, eps[:1]), eps)
            elif kind == 3:
                u.bayes_risk(eps)
            elif kind == 4:
                u.expected_information_gain(eps)
            elif kind == 5:
                m.simulate_experiment(u.particle_locations, eps[:1])
            elif kind == 6:
                u.est_credible_region(.8)
                u.sample(3)
            else:
                m.likelihood(zoo.outcome_values(m, eps[:1]), u.particle_locations, eps)
            if moves():
                raise Violation('query-took-time-step', '{} kind {}'.format(what, kind))
            d = shadow.same_snapshot(before, shadow.snapshot(u))
            if d:
                raise Violation('query-changed-' + d, '{} kind {}'.format(what, kind))
        elif op['op'] == 'imp':
            before = shadow.snapshot(u)
            w.fault('impossible datum')
            try:
                u.update(0, ep)
            except RuntimeError:
                out = 'raised'
            if moves():
                raise Violation('rejected-datum-moved', '{}, policy {}'.format(what, pol))
            if pol != 'reset':
                d = shadow.same_snapshot(before, shadow.snapshot(u), skip=('data', 'just'))
                if d:
                    raise Violation('rejected-datum-changed-' + d, '{}, policy {}'.format(what, pol))
            sh.data, sh.norm = list(u.data_record), [float(x) for x in np.ravel(u.normalization_record)]
            sh.min_ess = float(u.min_n_ess)
            probe.events[:] = []
            sh.sync()
            steps.last = None
        elif op['op'] == 'resample':
            u.resample()
            sh.resample()
        elif op['op'] == 'step':
            eps = setup.eps(op['eps'])
            old = setup.prior.sample(op['n'])
            keep, keepe = old.copy(), eps.copy()
            steps.last = None
            new = m.update_timestep(old, eps)
            if not np.array_equal(old, keep) or not shadow.same_value(eps, keepe):
                raise Violation('timestep-modified-arguments', what)
            steps.add(old, eps, new, what)
            probe.events[:] = []
            steps.last = None
            g = m
            while not hasattr(g, 'est_update_covariance') and hasattr(g, 'underlying_model'):
                g = g.underlying_model
            if hasattr(g, 'est_update_covariance'):
                _cov(g, setup.walk, old, what)
        probe.disarm()
        sh.check(what)
        w.log(what, u.particle_locations, out)
        w.state(key, op['op'], min(sh.n_updates, 5), out, len(op.get('eps', [])))
        w.step()
    w.notes['updates'] += sh.n_updates
    steps.test(w)


def _cov(g, walk, mps, what):
    k, n = len(walk['rows']), walk['n']
    if walk['kind'] in ('fixed', 'dense'):
        want = walk['chol'].dot(walk['chol'].T)
    else:
        C = np.zeros((len(mps), k, k))
        if walk['kind'] == 'learned':
            C[:, range(k), range(k)] = mps[:, n:]
        else:
            a, b = np.tril_indices(k)
            C[:, a, b] = mps[:, n:]
        want = np.mean(C @ C.transpose(0, 2, 1), axis=0)
    got = g.est_update_covariance(mps)
    if not shadow.close(got, want, at=1e-16):
        raise Violation('update-covariance', '{}: {} expected {}'.format(what, got, want))
