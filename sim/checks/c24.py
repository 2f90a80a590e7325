"""C24: decorated models perturb only what they declare."""
import math
import warnings

import numpy as np
import qinfer as q
import scipy.stats as ss

from .. import shadow, stats, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run stacks decorations over a model that hands out its own cached arrays and calls the stack directly and through an updater; '
        'likelihoods are compared with the undecorated closed form (noise is whitened and tested), simulated data with its probabilities, '
        'reported structure with the decorated model, and all arrays of the model and the caller are compared before and after each call.')
REAL = ['qinfer.derived_models', 'qinfer.abstract_model', 'qinfer.smc', 'qinfer.domains', 'concrete models of the zoo']
STUB = ['random source', 'uninitialised memory', 'caching of the decorated model (added by instrumentation)']
STATES = 'hash of (stack of decorations, operation, sizes, form of the arguments)'
RUNS = dict(quick=5000, thorough=150000)
CHUNK = 8
NEEDS_OPS = False

BASES = dict(precession={'kind': 'precession'}, inversion={'kind': 'inversion'}, t2={'kind': 't2'}, noisycoin={'kind': 'noisycoin'}, rb={'kind': 'rb'},
             rbi={'kind': 'rbi'}, sim={'kind': 'sim'}, sim3={'kind': 'sim', 'kw': {'n_out': 3}}, simv={'kind': 'sim', 'kw': {'varying': True}},
             simc={'kind': 'sim', 'kw': {'canon': True, 'drift': .02}}, simd={'kind': 'sim', 'kw': {'drift': -.03, 'n_out': 3}},
             ndie={'kind': 'ndie', 'n': 3}, tomo={'kind': 'tomo'}, coin={'kind': 'coin'})
TWO = ('precession', 'inversion', 't2', 'noisycoin', 'rb', 'rbi', 'sim', 'simc', 'tomo', 'coin')


def hoard(model):
    """The model keeps every array it hands out, and hands it out again."""
    cls = type(model)
    kept = {}

    def keep(name, args, make):
        if model.failing == name:
            model.failing = None
            raise W.SimFault('injected failure of ' + name)
        key = (name,) + tuple(np.asarray(a).tobytes() if a is not None else None for a in args) + \
            tuple(np.shape(a) for a in args)
        if key not in kept:
            v = np.array(make())
            kept[key] = (v, v.copy())
        return kept[key][0]

    class Hoard(cls):
        def likelihood(self, os, mps, eps):
            return keep('likelihood', (os, mps, eps), lambda: super(Hoard, self).likelihood(os, mps, eps))

        def update_timestep(self, mps, eps):
            return keep('update_timestep', (mps, eps), lambda: super(Hoard, self).update_timestep(mps, eps))

        def canonicalize(self, mps):
            return keep('canonicalize', (mps,), lambda: super(Hoard, self).canonicalize(mps))

        def are_models_valid(self, mps):
            return keep('are_models_valid', (mps,), lambda: super(Hoard, self).are_models_valid(mps))

        def clear_cache(self):
            self.cleared = getattr(self, 'cleared', 0) + 1
    Hoard.__name__ = cls.__name__
    model.__class__ = Hoard
    model.kept, model.failing = kept, None
    return model


def _stack(spec):
    b = zoo.make(BASES[spec['base']])
    m = hoard(b.model)
    base = m
    cols = [('base', base.n_modelparams)]
    box = [list(r) for r in zoo._box(b.prior)] if hasattr(b.prior, 'box') else None
    extra = []                       # boxes of added parameters
    ref, eps, gen, tags = b.ref, b._eps, b.gen, set(b.tags)
    scalar = isinstance(base.expparams_dtype, str)
    models = [base]
    for d in spec['layers']:
        n = m.n_modelparams
        how = d['how']
        if how == 'poisoned':
            m = q.PoisonedModel(m, **d['kw'])
            tags.add('noisy')
        elif how == 'mle':
            m = q.MLEModel(m, d['pow'])
            ref = (lambda r, p: lambda os, mps, e: r(os, mps, e) ** p)(ref, d['pow'])
            tags.add('unnormalised')
        elif how == 'rw':
            m = q.RandomWalkModel(m, q.UniformDistribution([[-.001, .001]] * n))
            tags.add('walk')
        elif how == 'grw':
            kw = dict(diagonal=d['mode'] in ('fixed', 'learned'))
            if d['mode'] == 'fixed':
                kw['fixed_covariance'] = np.full(n, 1e-6)
            elif d['mode'] == 'dense':
                kw['fixed_covariance'] = np.eye(n) * 1e-6 + 2e-7
            m = q.GaussianRandomWalkModel(m, **kw)
            k = m.n_modelparams - n
            if k:
                want = n if d['mode'] == 'learned' else n * (n + 1) // 2
                if k != want:
                    raise Violation('added-parameters', '{} expected {}'.format(k, want))
                extra += [[1e-4, 1e-3]] * k
                cols.append((d['mode'], k))
                ref = (lambda r, n: lambda os, mps, e: r(os, mps[:, :n], e))(ref, n)
            tags.add('walk')
        elif how in ('binomial', 'multinomial'):
            if how == 'binomial':
                m = q.BinomialModel(m)
                ref = zoo.ref_binomial(ref, (lambda e: e['x']) if scalar else (lambda e: e))
            else:
                k = len(m.domain(None).values)
                m = q.MultinomialModel(m)
                ref = zoo.ref_multinomial(ref, k, (lambda e: e['x']) if scalar else (lambda e: e))
                tags.add('vector')
            g0 = gen
            if scalar:
                gen = lambda rng: [g0(rng), rng.randrange(1, 5)]
            else:
                gen = lambda rng: list(g0(rng)) + [rng.randrange(1, 5)]
            eps = zoo._rec
            scalar = False
        elif how == 'gausshyper':
            m = q.GaussianHyperparameterizedModel(m)
            extra += [[-1, 0], [1, 2], [.2, .5], [.2, .5]]
            cols.append(('gauss', 4))
            ref = zoo.ref_gausshyper(ref, n)
            tags.add('real')
        models.append(m)
    if extra:
        box2 = q.UniformDistribution(extra)
        prior = q.ProductDistribution(b.prior, box2)
    else:
        prior = b.prior
    s = zoo.Setup(m, prior, eps, gen, ref, tags)
    s.base, s.cols, s.models, s.layers = base, cols, models, spec['layers']
    s.plain = zoo.make(BASES[spec['base']])
    return s


zoo.KINDS['stack'] = _stack


def gen_layers(rng, base):
    out, data, poison, walks = [], None, False, 0
    n = {'t2': 2, 'rb': 3, 'rbi': 4, 'sim': 2, 'sim3': 2, 'simv': 2, 'simc': 2, 'simd': 2, 'inversion': 1, 'ndie': 3, 'tomo': 4}.get(base, 1)
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        opts = ['mle', 'rw', 'grw', 'grw']
        if not poison:
            opts += ['poisoned'] * 3
        if data is None and base != 'coin':
            if base in TWO:
                opts += ['binomial', 'gausshyper']
            if base not in ('simv',) and not poison:
                opts += ['multinomial']
        how = rng.choice(opts)
        if how == 'poisoned':
            kw = {'tol': rng.choice([.01, .1, .5])}
            if data != 'gausshyper' and rng.random() < .6:
                kw = {'n_samples': rng.choice([1, 5, 30])}
                if rng.random() < .6:
                    kw['hedge'] = rng.choice([0, .5, 3.0])
            out.append(dict(how=how, kw=kw))
            poison = True
        elif how == 'mle':
            out.append(dict(how=how, pow=rng.choice([.5, 1, 2.0, 3.7, 10])))
        elif how == 'rw':
            out.append(dict(how=how))
        elif how == 'grw':
            if walks > 1 or n > 4:
                continue
            walks += 1
            out.append(dict(how=how, mode=rng.choice(['fixed', 'dense', 'learned', 'learned_dense'])))
            if 'learned' in out[-1]['mode']:
                n = 99 if out[-1]['mode'] == 'learned_dense' else 2 * n
        else:
            if any(l['how'] == 'mle' for l in out):       # (not probabilities)
                continue
            out.append(dict(how=how))
            data = how
    return out or [dict(how='mle', pow=2.0)]


def generate(rng, i, tier):
    base = sorted(BASES)[i % len(BASES)]
    spec = dict(kind='stack', base=base, layers=gen_layers(rng, base))
    setup = zoo.make(spec)
    ops = []
    for _ in range(rng.randrange(2, 9)):
        x = rng.random()
        op = dict(eps=[setup.gen(rng) for _ in range(rng.choice([1, 1, 2, 5]))], n=zoo.big(rng, rng.choice([1, 2, 7, 20]), .01, (257, 300)), u=round(rng.random(), 6))
        if x < .35:
            op.update(op='likelihood', again=rng.random() < .3, form=rng.choice(['c', 'f', 'view', 'ro']))
            if any(l['how'] in ('binomial', 'multinomial') for l in spec['layers']) and rng.random() < .15:
                op.update(shots=rng.choice([257, 1001, 1500, 4096, 70000]), n=min(op['n'], 7), eps=op['eps'][:2])
            elif base == 'ndie' and rng.random() < .5:
                op['tiny'] = rng.choice([0.0, 1e-9, 1e-13, 1e-18, 1e-40])
        elif x < .5:
            op.update(op='structure')
        elif x < .65:
            op.update(op='models', form=rng.choice(['c', 'f', 'view', 'ro']))
        elif x < .75:
            op.update(op='simulate', eps=op['eps'][:2])
        elif x < .77:
            op.update(op='cache')
        elif x < .8:
            op.update(op='fail', where=rng.choice(['likelihood', 'canonicalize', 'are_models_valid', 'update_timestep']))
        elif x < .9:
            op.update(op='infer', n=rng.choice([8, 30]))
        else:
            op.update(op='noise', n=400, eps=[setup.gen(rng) for _ in range(4)])
        ops.append(op)
    if any(l['how'] == 'poisoned' for l in spec['layers']) and rng.random() < .5:
        ops.append(dict(op='noise', eps=[setup.gen(rng) for _ in range(4)], n=2500, u=.5))
    return dict(config=dict(model=spec), ops=ops, faults=[])


def form(x, how):
    if how == 'f':
        return np.asfortranarray(x)
    if how == 'view':
        big = np.full((2 * x.shape[0], x.shape[1] + 1), np.nan)
        big[::2, 1:] = x
        return big[::2, 1:]
    x = np.array(x)
    if how == 'ro':
        x.flags.writeable = False
    return x


def one_shot(s, m, data, x, eps):
    one = eps.copy()
    one['n_meas'] = 1
    if data == 'binomial':
        return s.ref(np.array([0, 1]), x, one)
    sides = len(s.plain.model.domain(None).values)
    row = np.zeros(sides, dtype=m.domain(one[:1])[0].dtype)
    row['k'] = np.eye(sides, dtype=int)
    return s.ref(row, x, one)


def smallest(s, m, data, x, eps):
    p = one_shot(s, m, data, x, eps)
    return np.min(np.where(p <= 0, 1, p), axis=0)[None]


def counts(s, m, data, x, eps, n, u):
    """Typical and unusual counts of many shots."""
    sides = 2 if data == 'binomial' else len(s.plain.model.domain(None).values)
    p = one_shot(s, m, data, x[:1], eps[:1])[:, 0, 0]
    p = p / p.sum()          # (a power of probabilities is none)
    out = []
    for dev in (0, -1.3, 3, -7):
        k = np.floor(np.clip(p, 0, 1) * n).astype(int)
        j = int(u * sides) % sides
        k[j] = min(max(k[j] + int(dev * math.sqrt(n) * .5), 0), n)
        i = (j + 1) % sides
        while k.sum() != n:                  # the next side makes up the difference
            k[i] = max(0, k[i] + n - k.sum())
            i = (i + 1) % sides
        out.append(k)
    if data == 'binomial':
        return np.array([k[1] for k in out])
    os = np.zeros(len(out), dtype=m.domain(eps[:1])[0].dtype)
    os['k'] = out
    return os


class Noise(object):
    """Whitened noise of the poisoned layer."""
    def __init__(self, w, layers):
        self.w, self.z = w, []
        self.pairs = dict(outcome=[], particle=[], experiment=[], call=[])
        self.kw, self.usable, self.power = None, False, 1.0
        for d in layers:
            if d['how'] == 'poisoned':
                self.kw, self.usable, self.power = d['kw'], True, 1.0
            elif self.kw is not None and d['how'] == 'mle':
                self.power *= d['pow']
            elif self.kw is not None and d['how'] in ('binomial', 'multinomial', 'gausshyper'):
                self.usable = False
        self.last = None

    def sigma(self, L):
        if 'tol' in self.kw:
            return np.full(L.shape, self.kw['tol'])
        return np.sqrt(np.maximum(L * (1 - L), 0) / (self.kw['n_samples'] + 2 * self.kw.get('hedge', 0) + 1))

    def add(self, got, L, what):
        """got: likelihoods of the stack; L: undisturbed likelihoods below the noise."""
        if np.any(got < 0) or np.any(got > 1) or np.any(np.isnan(got)):
            raise Violation('noise-not-clipped', '{}: [{}, {}]'.format(what, np.min(got), np.max(got)))
        if not self.usable:
            return
        v = got ** (1 / self.power)
        s = self.sigma(L)
        none = s < 1e-9
        if np.any(np.abs(v - np.clip(L, 0, 1))[none] > 1e-8):
            raise Violation('noise-without-error', '{}: likelihood {} became {}'.format(what, L[none][:3], v[none][:3]))
        with np.errstate(all='ignore'):
            z = (v - L) / s
            lo, hi = ss.norm.cdf((0 - L) / s), ss.norm.cdf((1 - L) / s)
            u = ss.norm.cdf(z)
        r = np.array([self.w.rng.random() for _ in range(z.size)]).reshape(z.shape) if (v <= 0).any() or (v >= 1).any() else np.zeros(z.shape)
        u = np.where(v <= 0, lo * r, np.where(v >= 1, hi + (1 - hi) * r, u))
        z = ss.norm.ppf(np.clip(u, 1e-300, 1 - 1e-16))
        z[none] = np.nan
        self.z.append(z.ravel())
        p = self.pairs
        p['outcome'].append((z[:-1] * z[1:]).ravel())
        p['particle'].append((z[:, :-1] * z[:, 1:]).ravel())
        p['experiment'].append((z[:, :, :-1] * z[:, :, 1:]).ravel())
        if self.last is not None and self.last.shape == z.shape:
            p['call'].append((self.last * z).ravel())
        self.last = z

    def test(self):
        z = np.concatenate(self.z) if self.z else np.zeros(0)
        z = z[np.isfinite(z)]
        self.w.notes['noise values tested'] += len(z)
        if len(z) < 20:
            return
        if not stats.normal_ok(z):
            raise Violation('noise-distribution', '{}: mean {} standard deviation {} of {}'.format(self.kw, z.mean(), z.std(), len(z)))
        n = len(z)
        if n > 500:
            if abs(z.mean()) * math.sqrt(n) > 7.5:
                raise Violation('noise-mean', '{}: {} of {}'.format(self.kw, z.mean(), n))
            p = ss.chi2.cdf(np.sum(z ** 2), n)
            if p < 1e-13 or ss.chi2.sf(np.sum(z ** 2), n) < 1e-13:
                raise Violation('noise-size', '{}: standard deviation {} of the declared size, of {}'.format(self.kw, z.std(), n))
        for k, v in self.pairs.items():
            v = np.concatenate(v) if v else np.zeros(0)
            v = v[np.isfinite(v)]
            if len(v) >= 500 and abs(v.mean()) * math.sqrt(len(v)) > 8.5:
                raise Violation('noise-dependent-' + k, 'correlation {} of {} pairs'.format(v.mean(), len(v)))


def below(layers):
    """Layers below the noise, or all."""
    out = []
    for d in layers:
        if d['how'] == 'poisoned':
            break
        out.append(d)
    return out


def execute(sc, w):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, w)


def _same(a, b):
    return np.shape(a) == np.shape(b) and np.asarray(a).tobytes() == np.asarray(b).tobytes()


def _run(sc, w):
    spec = sc['config']['model']
    s = zoo.make(spec)
    m, base, plain = s.model, s.base, s.plain
    names = [d['how'] for d in spec['layers']]
    noise = Noise(w, spec['layers'])
    low = zoo.make(dict(spec, layers=below(spec['layers']))) if noise.kw is not None else None
    data = [d for d in names if d in ('binomial', 'multinomial', 'gausshyper')]
    data = data[0] if data else None
    n0 = base.n_modelparams
    d = sum(k for _, k in s.cols)
    if m.n_modelparams != d or len(m.modelparam_names) != d or list(m.modelparam_names[:n0]) != list(plain.model.modelparam_names):
        raise Violation('parameter-names', '{} for {} parameters of {}'.format(m.modelparam_names, d, plain.model.modelparam_names))
    if m.base_model is not base or m.underlying_model is not s.models[-2]:
        raise Violation('model-chain', '{} {}'.format(m.base_model, m.underlying_model))

    def pristine(what):
        for k, (a, b) in base.kept.items():
            if not _same(a, b):
                raise Violation('array-of-decorated-model-modified', '{}: {}'.format(what, k[0]))

    for k, op in enumerate(sc['ops']):
        what = 'op {} ({}) on {}'.format(k, op['op'], '/'.join([spec['base']] + names))
        raws = [r for r in op['eps']]
        eps = s.eps(raws)
        eps0 = eps.copy()
        name = op['op']
        if name in ('likelihood', 'noise', 'models', 'fail'):
            x0 = s.prior.sample(op['n']) if name != 'noise' else np.repeat(s.prior.sample(max(1, op['n'] // 50)), 50, axis=0)[:op['n']]
            if op.get('tiny') is not None:
                x0[:, :3] = (x0[:, :3] + .1) / (x0[:, :3] + .1)[:, 1:3].sum(axis=1, keepdims=True)
                x0[:, 0] = op['tiny']
                x0[:, :3] = np.roll(x0[:, :3], int(op['u'] * 3), axis=1)
                w.fault('nearly impossible outcomes')
            x = form(x0, op.get('form'))
            if op.get('form') in ('f', 'view', 'ro'):
                w.fault('array layout ' + op['form'])
        shots = op.get('shots') if name == 'likelihood' and noise.kw is None else None
        if shots:
            eps['n_meas'] = shots
            eps0 = eps.copy()
            w.fault('thousands of shots')
        if name in ('likelihood', 'noise'):
            if shots:
                big, os = 0, counts(s, m, data, x0, eps, shots, op['u'])
            elif data == 'gausshyper':
                os = np.array([-.7, .1, 1.2])
            elif data in ('binomial', 'multinomial'):
                big = int(np.argmax(eps['n_meas']))
                os = np.asarray(m.domain(eps[big:big + 1])[0].values)
            else:
                os = np.asarray(m.domain(eps[:1])[0].values)
            os = np.array(os)
            os0 = os.copy()
            for _ in range(2 if op.get('again') else 1):
                L = m.likelihood(os, x, eps)
                if L.shape != (len(os), len(x), len(eps)):
                    raise Violation('likelihood-shape', '{}: {}'.format(what, L.shape))
                if noise.kw is None:
                    want = s.ref(os, x0, eps)
                    if data == 'multinomial':
                        # (outcomes of other totals are not of the domain)
                        want = np.where(eps['n_meas'][None, None, :] == eps['n_meas'][big], want, L)
                    if not np.all(np.abs(L - want) <= 1e-8 + 1e-7 * np.abs(want)):
                        raise Violation('likelihood', '{}: differs by up to {}'.format(what, np.max(np.abs(L - want))))
                    if shots:
                        # (relative rounding errors of small probabilities add up)
                        ok = (np.abs(L - want) <= 1e-250 + 1e-6 * np.abs(want)) | (smallest(s, m, data, x0, eps) < 1e-4)
                        if not np.all(ok):
                            raise Violation('likelihood-of-many-shots', '{}: {} expected {} ({} shots)'.format(what, L[~ok][:4], want[~ok][:4], shots))
                    if op.get('tiny') is not None and int(op['u'] * 3) < 2 and not np.all(np.abs(L - want) <= 1e-280 + 1e-7 * np.abs(want)):
                        raise Violation('small-likelihood', '{}: {} expected {}'.format(what, L.ravel()[:4], want.ravel()[:4]))
                else:
                    want = low.ref(os, x0[:, :low.model.n_modelparams], eps) if noise.usable else None
                    if data == 'multinomial':
                        want = want[:, :, eps['n_meas'] == eps['n_meas'][big]]
                        L = L[:, :, eps['n_meas'] == eps['n_meas'][big]]
                    if data != 'gausshyper' or noise.usable:
                        noise.add(L, want, what)
                    noise.last = noise.last if op.get('again') else None
                pristine(what)
            if not _same(os, os0):
                raise Violation('outcomes-modified', what)
            w.log(what, L)
        elif name == 'structure':
            if m.is_n_outcomes_constant != (plain.model.is_n_outcomes_constant and data not in ('binomial', 'multinomial')):
                raise Violation('is-n-outcomes-constant', '{}: {}'.format(what, m.is_n_outcomes_constant))
            dom = m.domain(eps)
            if len(dom) != len(eps):
                raise Violation('domain', '{}: {} domains for {} experiments'.format(what, len(dom), len(eps)))
            pd = plain.model.domain(plain._eps(plain.model, [_strip(r, spec, data) for r in raws]))
            for j in range(len(eps)):
                if data == 'gausshyper':
                    ok = isinstance(dom[j], q.RealDomain) and dom[j].min == -np.inf and dom[j].max == np.inf
                elif data == 'binomial':
                    ok = list(dom[j].values) == list(range(int(eps['n_meas'][j]) + 1))
                elif data == 'multinomial':
                    ok = dom[j].n_elements == pd[j].n_members and dom[j].n_meas == eps['n_meas'][j]
                else:
                    ok = _same(dom[j].values, pd[j].values) and type(dom[j]) is type(pd[j])
                if not ok:
                    raise Violation('domain', '{}: experiment {}: {!r}'.format(what, raws[j], dom[j]))
            no = np.broadcast_to(np.asarray(m.n_outcomes(eps), dtype=float), (len(eps),))
            if data == 'binomial':
                want = eps['n_meas'].astype(float) + 1
            elif data == 'multinomial':
                sides = plain.model.n_outcomes(None)
                want = np.array([math.comb(int(n) + sides - 1, sides - 1) for n in eps['n_meas']])
            else:
                want = np.broadcast_to(plain.model.n_outcomes(plain._eps(plain.model, raws)), (len(eps),))
            if not np.allclose(no, want):
                raise Violation('n-outcomes', '{}: {} expected {}'.format(what, no, want))
            cons = m.are_expparam_dtypes_consistent(eps)
            if not cons:
                raise Violation('dtypes-consistent', what)
            w.log(what, no)
        elif name == 'models':
            y0 = x0.copy()
            y0[:: 2] -= np.array([.0, 1.0, 2.0])[int(op['u'] * 3)] * (np.arange(len(y0))[::2, None] % 3)
            if spec['base'] in ('tomo', 'ndie'):
                y0 = x0.copy()
            if op['u'] * 10 % 1 < .5:
                # only one of the additional parameters is out of range
                y0 = x0.copy()
                if y0.shape[1] > n0:
                    j = n0 + int(op['u'] * 1000) % (y0.shape[1] - n0)
                    y0[:: 2, j] = -np.abs(y0[:: 2, j]) if op['u'] < .7 else 0
            y = form(y0, op['form'])
            valid = m.are_models_valid(y)
            want = plain.model.are_models_valid(y0[:, :n0].copy())
            c = n0
            for how, kk in s.cols[1:]:
                part = y0[:, c:c + kk]
                if how == 'gauss':
                    want = want & np.all(part[:, 2:] > 0, axis=1)
                elif how == 'learned':
                    want = want & np.all(part >= 0, axis=1)
                c += kk
            if valid.shape != want.shape or not np.array_equal(valid, want):
                raise Violation('validity', '{}: {} expected {} for {}'.format(what, valid, want, y0.tolist()))
            z = m.canonicalize(y)
            want = np.hstack([plain.model.canonicalize(y0[:, :n0].copy()), y0[:, n0:]])
            if not shadow.close(z, want, at=1e-12):
                raise Violation('canonical-form', '{}: {} expected {}'.format(what, z, want))
            pristine(what)
            if not _same(y, y0):
                raise Violation('parameters-modified', what)
            t = m.update_timestep(x, eps)
            if t.shape != x.shape + (len(eps),):
                raise Violation('timestep-shape', '{}: {}'.format(what, t.shape))
            if 'walk' not in s.tags:
                pe = plain._eps(plain.model, [_strip(r, spec, data) for r in raws])
                want = np.concatenate([plain.model.update_timestep(x0[:, :n0].copy(), pe), np.repeat(x0[:, n0:, None], len(eps), axis=2)], axis=1)
                if not shadow.close(t, want, at=1e-12):
                    raise Violation('timestep', '{}: {} expected {}'.format(what, t.tolist(), want.tolist()))
            w.log(what, valid, z)
        elif name == 'simulate':
            _simulate(s, m, plain, spec, data, op, eps, raws, what, w)
        elif name == 'cache':
            n = getattr(base, 'cleared', 0)
            m.clear_cache()
            if getattr(base, 'cleared', 0) == n:
                raise Violation('cache-not-cleared', what)
        elif name == 'fail':
            w.fault('decorated model fails in ' + op['where'])
            base.failing = op['where']
            a = (np.asarray(m.domain(eps[:1])[0].values), x, eps) if op['where'] == 'likelihood' else (x, eps) if op['where'] == 'update_timestep' else (x,)
            try:
                with np.errstate(all='ignore'):
                    getattr(m, op['where'])(*a)
            except W.SimFault:
                pass
            else:
                if op['where'] != 'update_timestep':
                    raise Violation('failure-swallowed', what)
            base.failing = None
        elif name == 'infer':
            pts = s.prior.sample(op['n'])
            keep = pts.copy()
            prior = zoo.FixedPrior(pts)
            u = q.SMCUpdater(m, op['n'], prior, resample_thresh=.9, zero_weight_policy='skip')
            truth = s.prior.sample(1)
            for e in range(len(eps)):
                o = m.simulate_experiment(truth, eps[e:e + 1])
                try:
                    u.update(o, eps[e:e + 1])
                except (AssertionError, np.linalg.LinAlgError):
                    break
                x1, w1 = np.array(u.particle_locations), np.array(u.particle_weights)
                if data is None:
                    try:
                        u.expected_information_gain(eps) if op['u'] < .3 else u.bayes_risk(eps)
                    except AssertionError:
                        pass
                if not _same(x1, u.particle_locations) or not _same(w1, u.particle_weights):
                    raise Violation('particles-modified-by-query', what)
            if not _same(pts, keep):
                raise Violation('prior-points-modified', what)
            w.log(what, u.particle_locations)
        pristine(what)
        if not _same(eps, eps0):
            raise Violation('experiments-modified', what)
        if name in ('likelihood', 'noise', 'models', 'fail') and not _same(x, x0):
            raise Violation('parameters-modified', what)
        w.state(spec['base'], tuple(names), name, op.get('form'), len(eps), op['n'])
        w.step()
    noise.test()


def _strip(raw, spec, data):
    """The experiment below a data decoration."""
    if data in ('binomial', 'multinomial'):
        raw = raw[:-1]
        if BASES[spec['base']]['kind'] == 'precession':
            return raw[0]
    return raw


def _simulate(s, m, plain, spec, data, op, eps, raws, what, w):
    """Data follow the undisturbed model."""
    names = [d['how'] for d in spec['layers']]
    if data in ('binomial', 'multinomial') and {'poisoned', 'mle'} & set(names[:names.index(data)]):
        return      # these sample from the likelihood of the model they decorate
    x1 = s.prior.sample(1)
    n0 = plain.model.n_modelparams
    n, rep = [(1, 400), (400, 1), (20, 20)][int(op['u'] * 3)]
    x = np.repeat(x1, n, axis=0)
    x0 = x.copy()
    o = m.simulate_experiment(x, eps, repeat=rep)
    if not _same(x, x0):
        raise Violation('parameters-modified', what)
    o = np.asarray(o)
    if o.shape != (rep, n, len(eps)):
        raise Violation('data-shape', '{}: {} for {}'.format(what, o.shape, (rep, n, len(eps))))
    pe = plain._eps(plain.model, [_strip(r, spec, data) for r in raws])
    for e in range(len(eps)):
        oe = o[:, :, e].ravel()
        vals = plain.model.domain(pe[e:e + 1])[0].values
        p = plain.ref(vals, x1[:, :n0], pe[e:e + 1])[:, 0, 0]
        if data == 'gausshyper':
            c = n0
            for how, k in s.cols[1:]:
                if how == 'gauss':
                    break
                c += k
            mu, sd = x1[0, c:c + 2], np.sqrt(x1[0, c + 2:c + 4])
            cdf = lambda v: p[0] * ss.norm.cdf((v - mu[0]) / sd[0]) + p[1] * ss.norm.cdf((v - mu[1]) / sd[1])
            if ss.kstest(oe.astype(float), cdf).pvalue < 1e-13:
                raise Violation('simulated-data', '{}: real-valued data do not follow the undisturbed model'.format(what))
            continue
        if data == 'binomial':
            nm = int(eps['n_meas'][e])
            oe, pr = oe.astype(int), ss.binom.pmf(np.arange(nm + 1), nm, p[1])
            ks = np.arange(nm + 1)
        elif data == 'multinomial':
            nm = int(eps['n_meas'][e])
            oe, pr, ks = oe['k'][:, 0].astype(int), ss.binom.pmf(np.arange(nm + 1), nm, p[0]), np.arange(nm + 1)
        else:
            ks, pr = vals, p
        cnt = [int(np.sum(oe == v)) for v in ks]
        if sum(cnt) != len(oe):
            raise Violation('simulated-outside-domain', '{}: {}'.format(what, set(oe.tolist()) - set(ks.tolist())))
        pr = np.where(np.abs(pr) < 1e-12, 0, np.where(pr > 1 - 1e-12, 1, pr))
        ok, bad = stats.counts_ok(cnt, pr)
        if not ok:
            raise Violation('simulated-data', '{}: {} of {} for probability {}'.format(what, *bad))
    w.log(what, o.shape)
