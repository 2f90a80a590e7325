"""Programs: sequences of library operations on one inference, described by JSON.

``start`` builds the environment (picklable, uninstrumented), ``step`` performs
one operation and returns everything that it lets the caller observe.
"""
import warnings

import numpy as np
import qinfer as q

from . import dists, zoo
from . import world as W

P, INV, T2 = {'kind': 'precession'}, {'kind': 'inversion'}, {'kind': 't2'}
MODELS = zoo.STATIC + zoo.DRIFTING + [
    {'kind': 'mle', 'base': P}, {'kind': 'poisoned', 'base': T2}, {'kind': 'poisoned', 'base': P, 'kw': {'n_samples': 40}},
    INV, INV, {'kind': 'tomo', 'dim': 3}, {'kind': 'tomo', 'dim': 2, 'kw': {'allow_subnormalized': True}}]
QUERIES = ['moments', 'risk', 'eig', 'hyp', 'sample', 'region', 'marginal', 'html', 'cluster']


def gen_config(rng):
    spec = rng.choice(MODELS)
    kind = 'smc'
    x = rng.random()
    if spec['kind'] in ('precession', 'coin', 'inversion') and x < .3:
        kind = 'bcrb'
    elif spec['kind'] in ('precession', 't2', 'noisycoin', 'ndie') and x > .7:
        kind = 'mixed'
    kw = {} if kind == 'mixed' or rng.random() < .5 else dict(zero_weight_policy=rng.choice(['skip', 'reset', 'warn']))
    if kind != 'mixed' and rng.random() < .3:
        kw['track_resampling_divergence'] = True
    return dict(model=spec, updater=kind, n=zoo.big(rng, rng.choice([10, 20, 40, 80]), .01, (257, 300, 1025)), thresh=rng.choice([0.0, .3, .5, .8, .95]),
                resampler=rng.choice(['default', 'default', 'resample_a', 'explicit', 'explicit']),
                lw=dict(a=rng.choice([.98, .9, .7]), postselect=rng.random() < .8, kernel=rng.choice([None, None, 'flat', 'two']),
                        **(dict(h=rng.choice([.2, .5]), zero_cov_comp=rng.choice([1e-10, 1e-4]), maxiter=rng.choice([1, 3, 1000])) if rng.random() < .3 else {})),
                kw=kw,
                canon=rng.random() < .7, adaptive=rng.random() < .5, ratio=rng.choice([.2, .5, 1.0]),
                wprior=rng.choice([None, None, None, 'product', 'post', 'mixture', 'normal', 'particles', 'interp']))


def gen_op(rng, cfg, setup, extra=False):
    x = rng.random()
    ep = setup.gen(rng)
    if extra and rng.random() < .12:
        return gen_extra(rng, cfg, setup)
    if x < .4:
        return dict(op='upd', ep=ep, u=round(rng.random(), 6), how=rng.choice(['sim', 'pick']))
    if x < .47 and cfg['updater'] != 'mixed':
        k = rng.randrange(1, 5)
        return dict(op='batch', eps=[setup.gen(rng) for _ in range(k)], us=[round(rng.random(), 6) for _ in range(k)], iv=rng.choice([1, 2, 5]))
    if x < .52:
        return dict(op='resample')
    if x < .55:
        return dict(op='reset') if rng.random() < .6 else dict(op='tune', a=rng.choice([.6, .9, .97]))
    if x < .63:
        return dict(op='sim', eps=[setup.gen(rng) for _ in range(rng.choice([1, 2]))], reps=rng.choice([1, 3]), np=rng.choice([1, 2]))
    if x < .75:
        return dict(op='heur', which=rng.choice(['expsparse', 'pgh', 'ensemble', 'tomo', 'designer']), ep=ep, u=rng.random(), ep2=setup.gen(rng))
    return dict(op='query', what=rng.choice(QUERIES), eps=[setup.gen(rng) for _ in range(rng.choice([1, 2, 3]))], n=rng.choice([1, 3, 9]))


def gen_extra(rng, cfg, setup):
    x = rng.random()
    if x < .35:
        return dict(op='dist', spec=dists.gen(rng), n=rng.choice([1, 2, 17]))
    if x < .6:
        return dict(op='perf', n=rng.choice([8, 20]), n_exp=rng.randrange(1, 6), trials=rng.choice([0, 1, 3]), model=rng.choice(PERF_MODELS))
    if x < .75:
        return dict(op='ale', us=round(rng.random(), 6), tol=rng.choice([.1, .2]), n=rng.choice([1, 3]), t=round(rng.uniform(.1, 5), 3))
    return dict(op='simple', which=rng.choice(['prec', 'rb', 'rbi']), n=rng.choice([20, 60]), seed=rng.randrange(10**6), all=rng.random() < .5)


def _prior(cfg, setup):
    k = cfg.get('wprior')
    if k is None or 'drift' in setup.tags and k != 'product':
        return setup.prior
    n = setup.model.n_modelparams
    if not hasattr(setup.prior, 'box'):
        return setup.prior
    r = np.array(setup.prior.box)
    if k == 'product':
        return q.ProductDistribution(*[q.UniformDistribution(x) for x in r])
    if k == 'post':
        return q.PostselectedDistribution(q.UniformDistribution(r), setup.model)
    if k == 'normal':
        return q.ProductDistribution(*[q.NormalDistribution(x.mean(), (x[1] - x[0]) ** 2 / 20, trunc=tuple(x)) for x in r])
    if k == 'mixture':
        mid = r.mean(axis=1)
        return q.MixtureDistribution([.3, .7], [q.UniformDistribution(np.stack([r[:, 0], mid], axis=1)),
                                                q.UniformDistribution(np.stack([mid, r[:, 1]], axis=1))])
    if k == 'interp' and n == 1 and setup.model.__class__.__name__ == 'SimplePrecessionModel':
        return q.InterpolatedUnivariateDistribution(dists.Pdf('uniform'), 1, 400)
    if k == 'particles':
        x = zoo.GridPrior(min(n, 3)).sample(25)
        x = np.concatenate([x, x], axis=1)[:, :n] if n <= 2 * x.shape[1] else None
        if x is None:
            return setup.prior
        return q.ParticleDistribution(particle_locations=r[:, 0] + (x + .9) / 1.8 * (r[:, 1] - r[:, 0]), particle_weights=np.arange(1.0, 26.0))
    return setup.prior


def flat_kernel(*shape):
    return np.random.uniform(-3 ** .5, 3 ** .5, shape)


def two_kernel(*shape):
    return np.random.choice([-1.0, 1.0], shape)


KERNELS = dict(flat=flat_kernel, two=two_kernel)


def start(cfg, setup=None):
    setup = setup or zoo.make(cfg['model'])
    kw = dict(resample_thresh=cfg['thresh'])
    if cfg['resampler'] == 'explicit':
        lw = dict(cfg['lw'])
        kernel = lw.pop('kernel', None)
        kw['resampler'] = q.LiuWestResampler(**(dict(lw, kernel=KERNELS[kernel]) if kernel else lw))
    elif cfg['resampler'] == 'resample_a':
        kw['resample_a'] = cfg['lw']['a']
    prior = _prior(cfg, setup)
    true = prior.sample(2)
    if cfg['updater'] == 'mixed':
        u = q.MixedApproximateSMCUpdater(setup.model, zoo.make(cfg['model']).model, cfg['n'], prior, mixture_ratio=cfg['ratio'], **kw)
    elif cfg['updater'] == 'bcrb':
        n = setup.model.n_modelparams
        u = q.SMCUpdaterBCRB(setup.model, cfg['n'], prior, adaptive=cfg['adaptive'], initial_bim=np.eye(n), canonicalize=cfg['canon'],
                             **dict(kw, **cfg['kw']))
    else:
        u = q.SMCUpdater(setup.model, cfg['n'], prior, canonicalize=cfg['canon'], **dict(kw, **cfg['kw']))
    return dict(u=u, true=true, heur=None)


def state(env):
    u = env['u']
    s = [np.array(u.particle_weights), np.array(u.particle_locations), list(map(np.array, u.data_record)),
         np.array(u.normalization_record, dtype=float), u.resample_count, float(u.min_n_ess), bool(u.just_resampled),
         None if u.resampling_divergences is None else [float(v) for v in u.resampling_divergences]]
    if isinstance(u, q.SMCUpdaterBCRB):
        s.append(u.current_bim)
        if u.track_adaptive:
            s.append(u.adaptive_bim)
    for m in layers(u.model):
        s.append([type(m).__name__, m.sim_count, getattr(m, 'call_count', None)])
    return s


def layers(model):
    return [model] + list(getattr(model, 'model_chain', ()))


def step(env, op, setup):
    """setup: a Setup of the same kind (its model is not used for state)."""
    u = env['u']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return STEPS[op['op']](env, u, op, setup)
        except Exception as e:          # what the operation does is for other checks to judge
            return ['raised', type(e).__name__]


def _datum(env, u, ep, x, setup, how='pick'):
    if how == 'sim':
        d = u.model.simulate_experiment(env['true'][:1], ep)
        d = np.asarray(d).reshape(-1)[0]
        return d
    return zoo.choose_outcome(setup, setup.model, ep, u.particle_locations, u.particle_weights, x)


def s_upd(env, u, op, setup):
    ep = setup.eps([op['ep']])
    d = _datum(env, u, ep, op['u'], setup, op['how'])
    if d is None:
        return 'none possible'
    try:
        u.update(zoo.as_outcomes(d) if 'vector' in setup.tags else d, ep)
    except RuntimeError as e:
        return ['raised', type(e).__name__]
    return [np.array(d), np.array(u.particle_weights), np.array(u.particle_locations), u.resample_count]


def s_batch(env, u, op, setup):
    eps = setup.eps(op['eps'])
    ds = []
    for k in range(len(op['eps'])):
        d = _datum(env, u, eps[k:k + 1], op['us'][k], setup)
        if d is None:
            return 'none possible'
        ds.append(np.asarray(d))
    try:
        u.batch_update(np.array(ds), eps, op['iv'])
    except RuntimeError as e:
        return ['raised', type(e).__name__]
    return [np.array(u.particle_weights), np.array(u.particle_locations)]


def s_resample(env, u, op, setup):
    if not np.sum(u.particle_weights) > .5:
        return None
    u.resample()
    return [np.array(u.particle_weights), np.array(u.particle_locations)]


def s_reset(env, u, op, setup):
    u.reset()
    return np.array(u.particle_locations)


def s_tune(env, u, op, setup):
    u.resampler.a = op['a']
    return [u.resampler.a]


def s_sim(env, u, op, setup):
    eps = setup.eps(op['eps'])
    return np.array(u.model.simulate_experiment(env['true'][:op['np']], eps, repeat=op['reps']))


def s_heur(env, u, op, setup):
    m = u.model
    dt = m.expparams_dtype
    names = None if isinstance(dt, str) else [str(f[0]) for f in dt]
    k = op['which']
    others = {} if names is None else {f: v for f, v in zip(names, op['ep'])}
    tf = 't' if names and 't' in names else None
    if k == 'expsparse':
        if names is not None and tf is None:
            return None
        if tf:
            others.pop('t')
        return np.array(q.ExpSparseHeuristic(u, scale=.5, t_field=tf, other_fields=others or None)())
    if k in ('pgh', 'ensemble'):
        if not names or 'w_' not in names:
            return None
        h1 = q.PGH(u, inv_field='w_', t_field='t', inv_func=_first, maxiters=5)
        try:
            if k == 'pgh':
                return np.array(h1())
            h2 = q.ExpSparseHeuristic(u, t_field='t', other_fields={'w_': .25})
            return np.array(q.EnsembleHeuristic([(h1, .4), (h2, .6)])())
        except RuntimeError as e:
            return 'gave up'
    if k == 'tomo':
        if 'tomo' not in setup.tags:
            return None
        from qinfer.tomography.expdesign import RandomStabilizerStateHeuristic, RandomPauliHeuristic, BestOfKMetaheuristic
        base = RandomPauliHeuristic(u) if m.base_model.dim == 2 and op['u'] < .5 else RandomStabilizerStateHeuristic(u)
        return np.array(BestOfKMetaheuristic(u, base, k=3)())
    if not names or 'real' in setup.tags or 'unnormalised' in setup.tags or 'noisy' in setup.tags or 'vector' in setup.tags:
        return None
    f = [n for n in names if n in ('t', 'alpha', 's')]
    if not f:
        return None
    ed = env.get('ed')
    if ed is None or op['u'] < .3:
        ed = env['ed'] = q.ExperimentDesigner(u, q.OptimizationAlgorithms.NELDER_MEAD if op['u'] < .7 else q.OptimizationAlgorithms.NULL)
    return np.array(ed.design_expparams_field(setup.eps([op['ep2']]), f[0], maxiter=3, maxfun=8, store_guess=True))


def _first(x):
    return x[0, 0] if x.ndim > 1 else x[0]


def s_query(env, u, op, setup):
    k = op['what']
    eps = setup.eps(op['eps'])
    if k == 'moments':
        return [u.est_mean(), u.est_covariance_mtx(), u.est_entropy(), float(u.n_ess), float(u.log_total_likelihood)]
    if k in ('risk', 'eig'):
        if 'real' in setup.tags or 'unnormalised' in setup.tags:
            return None
        return np.array(u.bayes_risk(eps) if k == 'risk' else u.expected_information_gain(eps))
    if k == 'hyp':
        if 'real' in setup.tags:
            return np.array(u.hypothetical_update(np.array([0.0, 0.3]), eps))
        return np.array(u.hypothetical_update(zoo.outcome_values(setup.model, eps[:1])[:2], eps[:1]))
    if k == 'sample':
        return np.array(u.sample(op['n']))
    if k == 'region':
        a, b = u.est_credible_region(.8, return_outside=True)
        return [np.array(a), np.array(b)]
    if k == 'marginal':
        return [np.array(x) for x in u.posterior_marginal(0, res=13)]
    if k == 'html':
        try:
            return u._repr_html_()
        except (ValueError, OverflowError):
            return 'unformattable'      # degenerate posterior
    if k == 'cluster':
        return [np.array(u.est_meanfn(_square))]


def _square(x):
    return x ** 2


PERF_MODELS = [P, INV, T2, {'kind': 'sim', 'kw': {'drift': .02}}, {'kind': 'noisycoin'}, {'kind': 'ndie', 'n': 3}, {'kind': 'randomwalk', 'base': P}]


def s_dist(env, u, op, setup):
    d = dists.make(op['spec'])
    try:
        return [np.array(d.dist.sample(op['n'])), np.array(d.dist.sample())]
    except RuntimeError:
        return 'gave up'


class Cycle(q.Heuristic):
    def __init__(self, updater, eps):
        super(Cycle, self).__init__(updater)
        self.up, self.eps = updater, eps

    def __call__(self):
        k = len(self.up.data_record) % len(self.eps)
        return self.eps[k:k + 1].copy()


def _cycle(eps):
    class H(Cycle):
        def __init__(self, updater):
            Cycle.__init__(self, updater, eps)
    return H


def _strip(rec):
    return {n: np.ma.getdata(rec[n]).copy() for n in rec.dtype.names if n != 'elapsed_time'}, np.ma.getmaskarray(rec['loss']).copy()


def s_perf(env, u, op, setup):
    import random
    s = zoo.make(op['model'])
    r = random.Random(op['n'] * 31 + op['n_exp'])
    eps = s.eps([s.gen(r) for _ in range(3)])
    if op['trials'] == 0:
        return _strip(q.perf_test(s.model, op['n'], s.prior, op['n_exp'], _cycle(eps)))
    return _strip(q.perf_test_multiple(op['trials'], s.model, op['n'], s.prior, op['n_exp'], _cycle(eps), allow_failures=True))


def s_ale(env, u, op, setup):
    from qinfer.ale import ALEApproximateModel
    m = ALEApproximateModel(q.SimplePrecessionModel(), error_tol=op['tol'])
    mps = np.linspace(.1, .9, op['n'])[:, None]
    L = m.likelihood(np.array([0, 1]), mps, np.array([op['t']]))
    return [L, m.sim_count, m.call_count]


def s_simple(env, u, op, setup):
    rs = W.real('RandomState')(op['seed'])
    if op['which'] == 'prec':
        d = np.stack([rs.binomial(20, .5, 5), np.arange(1, 6) * 1.3, np.full(5, 20)], axis=1)
        out = q.simple_est_prec(d, freq_max=2.0, n_particles=op['n'], return_all=op['all'])
    else:
        d = np.stack([20 - rs.binomial(10, .5, 5), 4 * np.arange(1, 6), np.full(5, 20)], axis=1)
        if op['which'] == 'rbi':
            d = np.concatenate([d, (np.arange(5) % 2)[:, None]], axis=1)
        out = q.simple_est_rb(d, interleaved=op['which'] == 'rbi', n_particles=op['n'], return_all=op['all'])
    if op['all']:
        return [out[0], out[1], np.array(out[2]['updater'].particle_locations), np.array(out[2]['updater'].particle_weights)]
    return list(out)


STEPS = dict(dist=s_dist, perf=s_perf, ale=s_ale, simple=s_simple, upd=s_upd, batch=s_batch, resample=s_resample, reset=s_reset, tune=s_tune, sim=s_sim, heur=s_heur, query=s_query)



# -- whole programs, possibly in another process ------------------------------
def rng_state():
    s = np.random.get_state()
    return [s[0], [int(x) for x in s[1]], int(s[2]), int(s[3]), float(s[4])]


def set_rng(s):
    np.random.set_state((s[0], np.array(s[1], dtype=np.uint32), s[2], s[3], s[4]))


def note(env, result):
    """Everything visible after an operation, canonically."""
    st = np.random.get_state()
    r = [W._canon(result), W._canon([np.array(st[1]), st[2], st[3], st[4]])]
    if env is not None:
        r.append(W._canon(state(env)))
    return r


def world(opts):
    w = W.World(opts['wseed'], opts['poison'])
    w.clock += opts.get('clock', 0.0)
    w.tick = opts.get('tick', 0.0)
    return w


def run_noise(noise, setups):
    """Uses other instances; leaves nothing behind that anything may depend on."""
    for cfg, ops in noise:
        key = str(cfg)
        env = start(cfg)
        for op in ops:
            if key not in setups:
                setups[key] = zoo.make(cfg['model'])
            step(env, op, setups[key])


def run(cfg, ops, seed, opts):
    """The whole program in this process: list of notes."""
    import warnings
    out, setups = [], {}
    noise = opts.get('noise') or []
    with world(opts):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for n in noise:
                if n['at'] < 0:
                    run_noise(n['what'], setups)
            np.random.seed(seed)
            setup = zoo.make(cfg['model'])
            env = start(cfg)
            out.append(note(env, None))
            for k, op in enumerate(ops):
                out.append(note(env, step(env, op, setup)))
                for n in noise:
                    if n['at'] == k:
                        st = np.random.get_state()
                        run_noise(n['what'], setups)
                        np.random.set_state(st)
    return out


def resume(blob, rng, cfg, ops, opts):
    """Continues a pickled environment: notes, new pickle, new random state."""
    import base64
    import pickle
    out = []
    with world(opts):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            setup = zoo.make(cfg['model'])
            env = pickle.loads(base64.b64decode(blob))
            set_rng(rng)
            for op in ops:
                out.append(note(env, step(env, op, setup)))
            final = [note(env, None)]
            return dict(notes=out, final=final, blob=base64.b64encode(pickle.dumps(env, opts.get('protocol', 4))).decode(), rng=rng_state())
