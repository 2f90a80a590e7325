"""C23: Bayesian information is accumulated exactly once per accepted update."""
import warnings

import numpy as np
import qinfer as q

from .. import shadow, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run drives a bound-tracking updater through accepted, failing, impossible and repeated data, forced and failing resampling, '
        'queries, resets and callers that overwrite the matrices they gave or were given; the information expected is computed from the '
        'samples the prior handed out and the particles just before each accepted datum, and inference is checked by a reference filter.')
REAL = ['qinfer.smc.SMCUpdaterBCRB', 'qinfer.abstract_model.DifferentiableModel', 'qinfer.score', 'scores of the concrete models',
        'qinfer.derived_models.DifferentiableBinomialModel', 'qinfer.distributions (gradients of priors)', 'qinfer.resamplers']
STUB = ['failures of model, prior and resampler', 'random source', 'uninitialised memory', 'models with impossible outcomes']
STATES = 'hash of (model, prior, options, operation, outcome of the call, updates so far)'
RUNS = dict(quick=6000, thorough=160000)
CHUNK = 8
NEEDS_OPS = False

P, INV, COIN = {'kind': 'precession'}, {'kind': 'inversion'}, {'kind': 'coin'}


class SimDiff(q.ScoreMixin, zoo.SimModel, q.DifferentiableModel):
    """Differentiable (numerically), with any number of outcomes, drift and canonical form."""
    _h = 1e-5


class RecPrior(q.Distribution):
    """Notes the samples handed out, and fails on demand."""
    def __init__(self, inner):
        self.inner, self.handed, self.fail, self.w = inner, [], None, None

    @property
    def n_rvs(self):
        return self.inner.n_rvs

    def sample(self, n=1):
        if self.fail is not None:
            if self.fail == 0:
                self.fail = None
                self.w.fault('prior.sample fails')
                raise W.SimFault('injected failure of prior.sample')
            self.fail -= 1
        s = self.inner.sample(n)
        self.handed.append(np.array(s))
        return s

    def grad_log_pdf(self, x):
        return self.inner.grad_log_pdf(x)


def _simdiff(spec):
    kw = spec.get('kw', {})
    s = zoo.make({'kind': 'sim', 'kw': kw})
    return zoo.Setup(SimDiff(**kw), s.prior, s._eps, s.gen, s.ref, s.tags | {'diff'})


def _prior(spec):
    s = zoo.make(spec['base'])
    box = np.array(zoo._box(s.prior)).reshape(-1, 2)
    n = len(box)
    mu, sd = box.mean(axis=1), (box[:, 1] - box[:, 0]) / 6
    how = spec['prior']
    g = None
    if how == 'box':
        d = s.prior
    elif how == 'normal' and n == 1:
        d = q.NormalDistribution(mu[0], sd[0] ** 2)
        g = lambda x: -(x - mu) / sd ** 2
    else:
        A = np.diag(sd) @ (np.eye(n) + .2 * np.tril(np.ones((n, n)), -1))
        C = A @ A.T
        d = q.MultivariateNormalDistribution(mu, C)
        g = lambda x: -np.linalg.solve(C, (x - mu).T).T
    out = zoo.Setup(s.model, RecPrior(d), s._eps, s.gen, s.ref, s.tags)
    out.grad = g
    return out


zoo.KINDS['simdiff'] = _simdiff
zoo.KINDS['prior'] = _prior
SPECS = [P, INV, COIN, {'kind': 'rb'}, {'kind': 'rbi'}, {'kind': 'diffbinomial', 'base': P}, {'kind': 'diffbinomial', 'base': INV},
         {'kind': 'diffbinomial', 'base': {'kind': 'rb'}}, {'kind': 'simdiff'}, {'kind': 'simdiff', 'kw': {'n_out': 3}},
         {'kind': 'simdiff', 'kw': {'varying': True}}, {'kind': 'simdiff', 'kw': {'drift': .03}},
         {'kind': 'simdiff', 'kw': {'canon': True, 'n_out': 3, 'drift': -.02}}]
if 'diffbinomial' not in zoo.KINDS:
    def _diffbin(spec):
        b = zoo.make(spec['base'])
        s = zoo.make({'kind': 'binomial', 'base': spec['base']})
        return zoo.Setup(q.DifferentiableBinomialModel(b.model), s.prior, s._eps, s.gen, s.ref, s.tags)
    zoo.KINDS['diffbinomial'] = _diffbin


def generate(rng, i, tier):
    base = SPECS[i % len(SPECS)]
    prior = rng.choice(['box', 'box', 'normal', 'mvn'])
    if base['kind'] == 'rb' or base['kind'] == 'rbi' or base.get('base', {}).get('kind') == 'rb' or base['kind'] == 'coin':
        prior = 'box'
    spec = dict(kind='prior', base=base, prior=prior)
    setup = zoo.make(spec)
    n = zoo.big(rng, rng.choice([1, 2, 5, 12, 40, 120]), .005)
    kw = dict(zero_weight_policy=rng.choice(['skip', 'error', 'reset']))
    kw['adaptive'] = rng.choice([True, True, False])
    if rng.random() < .15:
        del kw['adaptive']
    if rng.random() < .2:
        kw['track_resampling_divergence'] = True
    initial = rng.choice([None, 'absent', 'zero', 'int', 'float', 'list'])
    if n == 1 and initial in (None, 'absent'):
        initial = 'zero'
    cfg = dict(model=spec, n=n, thresh=rng.choice([0.0, .3, .5, .9, 1.0]), lw=dict(a=rng.choice([.98, .9, 1.0])), kw=kw, initial=initial,
               canonicalize=rng.random() < .8)
    ops = []
    for _ in range(rng.randrange(2, 14)):
        x = rng.random()
        ep = setup.gen(rng)
        op = dict(ep=ep, u=round(rng.random(), 6), rare=rng.random() < .15)
        if x < .4:
            op.update(op='upd', chk=rng.random() < .7)
        elif x < .48:
            op.update(op='batch', eps=[setup.gen(rng) for _ in range(rng.randrange(1, 5))], iv=rng.randrange(1, 4))
        elif x < .66:
            op.update(op='fail', where=rng.choice(['likelihood', 'likelihood', 'update_timestep', 'fisher_information', 'prior', 'resampler', 'canonicalize']),
                      nth=rng.choice([0, 0, 1, 1, 2]), when=rng.choice(['before', 'after']), kind=rng.choice(['error', 'error', 'interrupt', 'memory', 'float']))
        elif x < .72 and 'sim' in setup.tags:
            op.update(op='imp', ep=[ep[0], -1.0])
        elif x < .77:
            op.update(op='resample')
        elif x < .8:
            op.update(op='reset', n=rng.choice([None, n, n + 3]))
        elif x < .9:
            op.update(op='scribble')
        else:
            op.update(op='query', kind=rng.randrange(8), eps=[setup.gen(rng) for _ in range(rng.randrange(1, 4))],
                      n=rng.choice([None, 1, 3, 2 * n]))
            if rng.random() < .4:
                op['shots'] = rng.choice([200, 3000, 40000, 10 ** 5, 3 * 10 ** 7])
            op['refill'] = rng.random() < .5
        ops.append(op)
    return dict(config=cfg, ops=ops, faults=[])


def ref_fi(spec, mps, eps):
    """Fisher information by numerical differentiation of the closed-form likelihood, or None where that is not accurate."""
    if spec['kind'] == 'diffbinomial':
        e = eps['x'] if 'x' in eps.dtype.names else eps
        f = ref_fi(spec['base'], mps, e)
        return None if f is None else f * eps['n_meas'].astype(float)
    s = zoo.make(spec)
    out = np.zeros((mps.shape[1],) * 2 + (len(mps), len(eps)))
    for e in range(len(eps)):
        ep = eps[e:e + 1]
        os = np.arange(int(np.ravel(s.model.n_outcomes(ep))[0]))
        L = s.ref(os, mps, ep)[:, :, 0]
        if not np.all(np.isfinite(L)) or np.min(L) < 1e-7:
            return None
        g = []
        for j in range(mps.shape[1]):
            h = np.zeros(mps.shape[1])
            h[j] = 1e-5
            g.append((s.ref(os, mps + h, ep)[:, :, 0] - s.ref(os, mps - h, ep)[:, :, 0]) / 2e-5)
        g = np.array(g)
        out[..., e] = np.einsum('iom,jom,om->ijm', g, g, 1 / L)
    return out


def execute(sc, w):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, w)


def initial(how, d):
    if how == 'zero':
        return np.zeros((d, d))
    if how == 'int':
        return np.arange(d * d).reshape(d, d) + 2
    if how == 'float':
        return np.eye(d) * 2.5 + .25
    return [[1.5 + r + c for c in range(d)] for r in range(d)]


def _run(sc, w):
    c = sc['config']
    base = c['model']['base']
    kw = dict(c['kw'])
    d = zoo.make(c['model']).model.n_modelparams
    given = None
    if c['initial'] != 'absent':
        given = initial(c['initial'], d) if c['initial'] else None
        kw['initial_bim'] = given
    u, sh, setup, probe = shadow.build(sc, w, cls=q.SMCUpdaterBCRB, kw=kw)
    prior, twin = setup.prior, sh.twin.model
    prior.w = w
    # failures of the Fisher information itself
    m = setup.model
    inner = m.fisher_information

    def fisher(mps, eps):
        f = probe.enter('fisher_information')
        out = inner(mps, eps)
        probe.leave('fisher_information', f)
        return out
    m.fisher_information = fisher
    adaptive = bool(kw.get('adaptive'))
    if u.track_adaptive != adaptive:
        raise Violation('track-adaptive', 'reports {} for {}'.format(u.track_adaptive, kw.get('adaptive')))
    if given is not None:
        cur = np.array(given, dtype=float)
        keep = np.array(given)
    else:
        x = np.array(u.particle_locations)
        g = setup.grad(x) if setup.grad else np.zeros_like(x)
        cur = np.einsum('ni,nj->ij', g, g) / len(x)
    ada = cur.copy()
    scale = [1.0 + np.max(np.abs(cur))]
    rej = False

    def fi(mps, eps):
        with np.errstate(all='ignore'):
            f = twin.fisher_information(mps, eps)
        if not np.all(np.isfinite(f)) or np.max(np.abs(f)) > 1e12:
            raise W.Abandon('singular Fisher information')
        with np.errstate(all='ignore'):
            r = ref_fi(base, mps, eps)
        if r is not None:
            w.notes['compared with numerical derivative'] += 1
            if np.max(np.abs(f - r)) > 2e-3 * (1 + np.max(np.abs(r))):
                raise Violation('fisher-information', 'of {}: {} expected {}'.format(eps, f[..., 0, 0], r[..., 0, 0]))
        return f

    def check(what):
        for name, got, want in [('current', u.current_bim, cur)] + ([('adaptive', u.adaptive_bim, ada)] if adaptive else []):
            if got.shape != (d, d):
                raise Violation(name + '-bim-shape', '{}: {}'.format(what, got.shape))
            if not np.all(np.abs(got - want) <= 1e-8 * scale[0]):
                raise Violation(name + '-bim', '{}: {} expected {}'.format(what, got.tolist(), want.tolist()))
        if not adaptive:
            try:
                u.adaptive_bim
            except ValueError:
                pass
            else:
                raise Violation('adaptive-bim-available', what)
        sh.check(what)

    def add(handed, wb, xb, ep, what):
        h = np.concatenate(handed) if handed else np.zeros((0, d))
        if not len(h):
            raise Violation('prior-not-sampled', '{}: an update was accepted without averaging over the prior'.format(what))
        p = fi(h, ep)[:, :, :, 0].mean(axis=2)
        cur[:] = cur + p
        if adaptive:
            a = np.einsum('m,ijm->ij', wb, fi(xb, ep)[:, :, :, 0])
            ada[:] = ada + a
        scale[0] = max(scale[0], 1 + np.max(np.abs(cur)), 1 + np.max(np.abs(ada)))
    check('start')
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({})'.format(k, op['op'])
        ep = setup.eps([op['ep']])
        probe.events[:] = []
        prior.handed[:] = []
        out = None
        if op['op'] in ('upd', 'fail'):
            o = sh.pick(op, ep)
            if o is None or float(np.sum(sh.w * sh.L(o, ep))) < 1e-9:
                continue
            wb, xb = sh.w.copy(), sh.x.copy()
            fi(xb, ep)
            chk = op.get('chk', True)
            if op['op'] == 'fail':
                what += ' ' + op['where']
                before = shadow.snapshot(u)
                nr = len(u.normalization_record)
                if op['where'] == 'prior':
                    prior.fail = 0
                else:
                    probe.arm(op['where'], op['nth'], op['when'], op['kind'])
                try:
                    u.update(o, ep)
                except (W.SimFault, W.SimInterrupt, MemoryError, FloatingPointError):
                    out = 'failed'
                except np.linalg.LinAlgError:
                    raise W.Abandon('degenerate cloud')
                probe.disarm()
                prior.fail = None
                if out == 'failed':
                    if len(u.normalization_record) == nr:
                        bad = shadow.same_snapshot(before, shadow.snapshot(u))
                        if bad:
                            raise Violation('failed-update-changed-' + bad, what)
                        probe.events[:] = []
                        prior.handed[:] = []
                        check(what)
                        what += ', retry'
                        out = 'retried'
                        u.update(o, ep)
                    else:
                        out = 'resampling failed'
                        ev = [e for e in probe.events if e[0] != 'R']
                        probe.events[:] = ev
                        add(prior.handed, wb, xb, ep, what)
                        sh.bayes(o, ep)
                        check(what)
                        w.log(what, cur)
                        w.state(base['kind'], op['where'], out)
                        continue
            else:
                u.update(o, ep, check_for_resample=chk) if not chk or op['u'] < .5 else u.update(o, ep)
            add(prior.handed, wb, xb, ep, what)
            sh.bayes(o, ep)
            if chk:
                sh.maybe_resample()
        elif op['op'] == 'batch':
            eps = setup.eps(op['eps'])
            os = [zoo.choose_outcome(setup, twin, eps[j:j + 1], sh.x, sh.w, op['u']) for j in range(len(eps))]
            if any(o is None for o in os):
                continue
            arr = np.array(os, dtype=np.asarray(os[0]).dtype)
            try:
                u.batch_update(arr, eps, resample_interval=op['iv'])
            except RuntimeError:
                raise W.Abandon('a datum of a batch became impossible')
            if len(prior.handed) % len(arr):
                raise Violation('prior-sampled-unevenly', '{}: {} times for {} data'.format(what, len(prior.handed), len(arr)))
            per = len(prior.handed) // len(arr)
            for j in range(len(arr)):
                wb, xb = sh.w.copy(), sh.x.copy()
                if float(np.sum(sh.w * sh.L(arr[j], eps[j:j + 1]))) < 1e-9:
                    raise W.Abandon('a datum of a batch became impossible')
                sh.bayes(arr[j], eps[j:j + 1])
                add(prior.handed[j * per:(j + 1) * per], wb, xb, eps[j:j + 1], what)
                if (j + 1) % op['iv'] == 0:
                    sh.maybe_resample()
        elif op['op'] == 'imp':
            w.fault('impossible datum')
            try:
                with np.errstate(all='ignore'):
                    u.update(0, ep)
            except RuntimeError:
                out = 'raised'
            probe.events[:] = []
            sh.data, sh.norm = list(u.data_record), [float(x) for x in np.ravel(u.normalization_record)]
            sh.min_ess = float(u.min_n_ess)
            sh.count = u.resample_count
            sh.sync()
        elif op['op'] == 'resample':
            try:
                u.resample()
            except np.linalg.LinAlgError:
                raise W.Abandon('degenerate cloud')
            sh.resample()
        elif op['op'] == 'reset':
            u.reset(op['n'])
            sh.data, sh.norm = list(u.data_record), [float(x) for x in np.ravel(u.normalization_record)]
            sh.min_ess, sh.count = float(u.min_n_ess), u.resample_count
            probe.events[:] = []
            sh.sync()
        elif op['op'] == 'scribble':
            # The caller overwrites what it was given and what it passed in.
            w.fault('caller overwrites matrices')
            u.current_bim[:] = -77.0
            if adaptive:
                u.adaptive_bim[:] = np.nan
            if isinstance(given, np.ndarray):
                if not np.array_equal(given, keep):
                    raise Violation('initial-matrix-modified', '{}: {} was {}'.format(what, given.tolist(), keep.tolist()))
                given[:] = -5
                keep = given.copy()
            old = [np.array(u.current_bim), u.current_bim]
            if not rej and old[1] is u.current_bim:
                raise Violation('returned-matrix-shared', what)
        else:
            eps = setup.eps(op['eps'])
            before = shadow.snapshot(u)
            kind = op['kind']
            if op.get('shots') and 'n_meas' in (eps.dtype.names or ()) and kind < 5:
                eps['n_meas'] = op['shots']
            for again in (False, True) if kind < 5 and op.get('refill') else (False,):
                if again:
                    # The caller puts other experiments into the same array.
                    eps[:] = setup.eps([op['ep']] * len(eps))
                    prior.handed[:] = []
                if kind < 3:
                    got = u.prior_bayes_information(eps) if op['n'] is None else u.prior_bayes_information(eps, op['n'])
                    h = np.concatenate(prior.handed)
                    if len(h) != (op['n'] or u.n_particles):
                        raise Violation('prior-samples', '{}: {} requested {}'.format(what, len(h), op['n']))
                    want = fi(h, eps).mean(axis=2)
                    cmp_(got, want, 'prior-information', what)
                    got[:] = 3
                elif kind < 5:
                    got = u.posterior_bayes_information(eps)
                    cmp_(got, np.einsum('m,ijme->ije', sh.w, fi(sh.x, eps)), 'posterior-information', what)
                    got[:] = 3
            if kind < 5:
                pass
            elif kind == 5:
                u.hypothetical_update(zoo.outcome_values(m, eps[:1]), eps)
            elif kind == 6:
                u.bayes_risk(eps)
            else:
                u.expected_information_gain(eps)
            bad = shadow.same_snapshot(before, shadow.snapshot(u))
            if bad:
                raise Violation('query-changed-' + bad, '{} kind {}'.format(what, kind))
            probe.events[:] = []
        check(what)
        w.log(what, cur, ada, out)
        w.state(str(base), c['model']['prior'], c['initial'], adaptive, op['op'], op.get('where'), out, min(sh.n_updates, 6))
        w.step()
    if isinstance(given, np.ndarray) and not np.array_equal(given, keep):
        raise Violation('initial-matrix-modified', 'end: {} was {}'.format(given.tolist(), keep.tolist()))
    if isinstance(given, list) and given != initial('list', d):
        raise Violation('initial-matrix-modified', 'end: {}'.format(given))
    w.notes['updates'] += sh.n_updates


def cmp_(got, want, code, what):
    if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-8 * (1 + np.max(np.abs(want)))):
        raise Violation(code, '{}: {} expected {}'.format(what, got.tolist(), want.tolist()))
