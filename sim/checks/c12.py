"""C12: simulated data follow the model's own likelihood."""
import warnings

import numpy as np
import qinfer as q
import scipy.stats as ss

from .. import cluster, stats, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run makes several simulation requests of different sizes to one model, interleaved with other uses of it, under '
        'a random source that returns extreme values (structure, domain and possibility of every outcome are checked), or '
        'makes one large request and tests frequencies and independence of repetitions, particles and experiments.')
REAL = ['simulate_experiment of all models and decorators', 'qinfer.domains', 'qinfer.parallel (some runs)']
STUB = ['random source incl. extreme values', 'uninitialised memory', 'ipyparallel cluster']
STATES = 'hash of (model, mode, numbers of repetitions, particles, experiments, boundary particles)'
RUNS = dict(quick=5000, thorough=150000)
CHUNK = 8
NEEDS_OPS = False

P = {'kind': 'precession'}
SPECS = zoo.STATIC + zoo.DRIFTING + [
    {'kind': 'mle', 'base': P}, {'kind': 'mle', 'base': {'kind': 'binomial', 'base': P}, 'pow': 3.0},
    {'kind': 'poisoned', 'base': {'kind': 't2'}}, {'kind': 'poisoned', 'base': P, 'kw': {'n_samples': 40}},
    {'kind': 'tomo', 'dim': 3}, {'kind': 'tomo', 'dim': 2, 'kw': {'allow_subnormalized': True}},
    {'kind': 'multinomial', 'n': 4}, {'kind': 'ndie', 'n': 2}, {'kind': 'ndie', 'n': 6},
    {'kind': 'randomwalk', 'base': {'kind': 'binomial', 'base': P}}, {'kind': 'binomial', 'base': {'kind': 'tomo'}},
    {'kind': 'sim', 'kw': {'n_out': 3}, 'hard': 0.8}, {'kind': 'sim', 'kw': {'n_out': 4, 'varying': True}, 'hard': 0.5},
    {'kind': 'mle', 'base': {'kind': 'sim', 'kw': {'varying': True}}},
    {'kind': 'multinomial', 'base': {'kind': 'rb'}, 'max': 2}, {'kind': 'multinomial', 'base': {'kind': 'sim', 'kw': {'n_out': 3}}, 'max': 2}]

EDGES = ('coin', 'precession', 'ndie', 'rb', 'sim')


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    setup = zoo.make(spec)
    stat = i // len(SPECS) % 4 == 3
    ops = []
    for _ in range(1 if stat else rng.randrange(2, 7)):
        ne = zoo.big(rng, rng.choice([1, 1, 2, 3, 4]), .005, (40, 130, 257))
        ops.append(dict(op=rng.choice(['sim'] * 5 + ['like', 'domain', 'par']) if not stat else 'sim',
                        eps=[setup.gen(rng) for _ in range(ne)], mp=zoo.big(rng, rng.choice([1, 1, 2, 3, 7]) if ne < 9 else 1, .005), reps=rng.choice([1, 1, 2, 3, 5]),
                        edge=rng.random() < .3))
    large = not stat and rng.random() < (.2 if spec['kind'] in EDGES else .03)
    if large:
        ops[0].update(op='sim', reps=rng.choice([1200, 10500, 10500, 10500, 70000]), mp=1, eps=ops[0]['eps'][:1], edge=rng.random() < .8)
    if stat:
        ops[0].update(mp=rng.choice([1, 2, 3]), axis=rng.choice(['reps', 'reps', 'mp', 'ep']))
        if 'n_meas' in str(setup.eps(ops[0]['eps']).dtype.names) and "'multinomial'" not in str(spec) and rng.random() < .3:
            for e in ops[0]['eps']:
                e[-1] = rng.choice([100, 130, 255, 256, 300, 600])
            if rng.random() < .2:
                ops[0].update(mp=1, eps=ops[0]['eps'][:1])
                ops[0]['eps'][0][-1] = rng.choice([3000, 3000, 3000, 33000])
    return dict(config=dict(model=spec, stat=stat, p=rng.choice([0.0, .3, 1.0]) if not large else 1.0), ops=ops, faults=[])


def true_model(model):
    """The model whose likelihood the data follow."""
    while isinstance(model, (q.PoisonedModel, q.MLEModel, q.RandomWalkModel, q.GaussianRandomWalkModel)):
        n = model.underlying_model.n_modelparams
        model = model.underlying_model
    return model


def likelihoods(model, os, mps, eps):
    m = true_model(model)
    return m.likelihood(os, mps[:, :m.n_modelparams], eps)


def edge(setup, mps, rng):
    """Moves particles to corners of the parameter space."""
    kind = setup.model.base_model.__class__.__name__ if setup.model.base_model is not None else setup.model.__class__.__name__
    if kind == 'NDieModel':
        d = mps.shape[1]
        for k in range(len(mps)):
            v = [0.0] * d
            cut = sorted(rng.randrange(0, 11) for _ in range(d - 1))
            for a, (x, y) in enumerate(zip([0] + cut, cut + [10])):
                v[a] = (y - x) / 10.0
            mps[k] = v
    elif kind in ('CoinModel', 'NoisyCoinModel', 'SimplePrecessionModel'):
        for k in range(len(mps)):
            mps[k, 0] = rng.choice([0.0, 1.0, 1 - 2.0 ** -53, 2.0 ** -60])
    elif kind == 'RandomizedBenchmarkingModel':
        for k in range(len(mps)):
            mps[k, :-2] = rng.choice([0.0, 1.0])
            mps[k, -2:] = rng.choice([(0, 0), (1, 0), (0, 1), (.5, .5)])
    elif kind == 'SimModel':
        mps[:, 0] = np.sign(mps[:, 0])
        mps[:, 1] = np.sign(mps[:, 1])
    return mps


def particles(setup, op, w, n=None):
    mps = setup.prior.sample(n or op['mp'])
    if op['edge']:
        mps = edge(setup, mps, w.rng)
    return mps


def request(model, mps, eps, reps, what):
    a, b = mps.copy(), eps.copy()
    out = model.simulate_experiment(mps, eps, repeat=reps) if reps > 1 else model.simulate_experiment(mps, eps)
    if mps.tobytes() != a.tobytes() or eps.tobytes() != b.tobytes():
        raise Violation('arguments-modified', what)
    if reps == 1 and len(mps) == 1 and len(eps) == 1:
        if np.ndim(out) != 0:
            raise Violation('not-a-scalar', '{}: {!r}'.format(what, out))
        full = np.asarray(out).reshape(1, 1, 1) if not isinstance(out, np.void) else np.array([out], dtype=out.dtype).reshape(1, 1, 1)
    else:
        full = out
        if not isinstance(out, np.ndarray) or out.shape != (reps, len(mps), len(eps)):
            raise Violation('wrong-shape', '{}: {} expected {}'.format(what, np.shape(out), (reps, len(mps), len(eps))))
    return out, full


def check_domain(setup, twin, what, full, mps, eps):
    m = setup.model
    for j in range(len(eps)):
        d = twin.model.domain(eps[j:j + 1])[0]
        o = np.ascontiguousarray(full[:, :, j])
        if not d.in_domain(o.reshape(-1)):
            raise Violation('outside-domain', '{}: experiment {}: {}'.format(what, eps[j], o.reshape(-1)[:5]))
        if 'real' not in setup.tags:
            vals = d.values
            if vals.dtype.names is None and o.dtype.kind not in 'iub':
                raise Violation('outcome-dtype', '{}: {}'.format(what, o.dtype))
            if vals.dtype.names:
                if o.dtype != vals.dtype:
                    raise Violation('outcome-dtype', '{}: {} expected {}'.format(what, o.dtype, vals.dtype))
                tot = o['k'].sum(axis=-1)
                if np.any(tot != eps['n_meas'][j]) or np.any(o['k'] < 0):
                    raise Violation('outside-domain', '{}: {}'.format(what, o.reshape(-1)[:5]))
            elif not np.all(np.isin(o, vals)):
                raise Violation('outside-domain', '{}: {}'.format(what, o.reshape(-1)[:5]))
        for k in range(len(mps)):
            x = o[:, k].copy()
            if len(x) > 100 and 'real' not in setup.tags:
                x = np.unique(x)
            L = likelihoods(twin.model, x, mps[k:k + 1], eps[j:j + 1])[:, 0, 0]
            if not np.all(L > 0):
                a = np.argmin(L)
                raise Violation('impossible-outcome', '{}: outcome {} of particle {} and experiment {} has likelihood {}'.format(
                    what, x[a], mps[k], eps[j], L[a]))


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    setup, twin = zoo.make(c['model']), zoo.make(c['model'])
    if c['stat']:
        for op in sc['ops']:
            statistics(setup, twin, op, w, c)
        return
    w.extreme_p = c['p']
    kept = []
    for k, op in enumerate(sc['ops']):
        what = 'request {} {}'.format(k, (op['reps'], op['mp'], len(op['eps'])))
        eps = setup.eps(op['eps'])
        mps = particles(setup, op, w)
        if op['op'] == 'like':
            if 'real' not in setup.tags:
                setup.model.likelihood(zoo.outcome_values(twin.model, eps[:1])[:2], mps, eps)
            continue
        if op['op'] == 'domain':
            d = setup.model.domain(eps[-1:])[0]
            if 'real' not in setup.tags:
                d.values
            continue
        model = setup.model
        if op['op'] == 'par' and c['model']['kind'] != 'coin' and 'coin' not in str(c['model']):
            model = q.DirectViewParallelizedModel(model, cluster.SimDirectView(w, 3), serial_threshold=0)
        out, full = request(model, mps, eps, op['reps'], what)
        check_domain(setup, twin, what, full, mps, eps)
        for x, y in kept:
            if np.asarray(x).tobytes() != y:
                raise Violation('earlier-data-changed', what)
        kept.append((out, np.asarray(out).tobytes()))
        w.log(what, out)
        w.state(str(c['model']), op['op'], op['reps'], op['mp'], len(op['eps']), op['edge'])


def code(o, vals):
    """Index of each outcome in vals."""
    if vals.dtype.names:
        key = {tuple(v['k']): a for a, v in enumerate(vals)}
        flat = [key.get(tuple(v['k']), -1) for v in o.reshape(-1)]
        return np.array(flat).reshape(o.shape)
    order = np.argsort(vals, kind='stable')
    at = np.minimum(np.searchsorted(vals[order], o), len(vals) - 1)
    return np.where(vals[order][at] == o, order[at], -1)


def statistics(setup, twin, op, w, c):
    eps = setup.eps(op['eps'])
    mps = particles(setup, op, w)
    nm, ne = len(mps), len(eps)
    big = 1200 if 'vector' in setup.tags else 2400
    axis = op['axis']
    if axis == 'mp':
        full = request(setup.model, np.tile(mps, (big, 1)), eps, 1, 'statistics')[1][0].reshape(big, nm, ne)
    elif axis == 'ep':
        if c['model']['kind'] in ('multinomial',) or 'varying' in setup.tags:
            big //= 3
        full = request(setup.model, mps, np.concatenate([eps] * big), 1, 'statistics')[1][0].reshape(nm, big, ne).transpose(1, 0, 2)
    else:
        full = request(setup.model, mps, eps, big, 'statistics')[1]
    w.log(op['axis'], full)
    w.state('statistics', str(c['model']), axis, nm, ne)
    cells = []
    for m in range(nm):
        for e in range(ne):
            o = full[:, m, e]
            where = 'particle {} {}, experiment {} {}, along {}'.format(m, mps[m], e, eps[e], axis)
            if 'real' in setup.tags:
                p1 = float(zoo.ref_noisycoin([1], mps[m:m + 1, :1], eps[e:e + 1])[0, 0, 0])
                mu, s = mps[m, 1:3], np.sqrt(mps[m, 3:5])
                u = (1 - p1) * ss.norm.cdf((o - mu[0]) / s[0]) + p1 * ss.norm.cdf((o - mu[1]) / s[1])
                if not stats.uniform_ok(u):
                    raise Violation('wrong-distribution', where)
                # The likelihood itself, as a density over outcomes
                g = np.linspace(min(mu - 9 * s), max(mu + 9 * s), 3001)
                f = likelihoods(twin.model, g, mps[m:m + 1], eps[e:e + 1])[:, 0, 0]
                F = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(g))])
                if abs(F[-1] - 1) > 1e-3 or not stats.uniform_ok(np.interp(o, g, F / F[-1])):
                    raise Violation('data-not-from-likelihood', '{}: likelihood integrates to {}'.format(where, F[-1]))
                cells.append((u < .5, .5))
                continue
            vals = zoo.outcome_values(twin.model, eps[e:e + 1])
            pr = likelihoods(twin.model, vals, mps[m:m + 1], eps[e:e + 1])[:, 0, 0]
            cd = code(o, vals)
            n, pb = np.bincount(cd[cd >= 0], minlength=len(vals)), pr
            if len(vals) > 90:
                # Outcomes grouped into intervals of similar probability
                at = np.minimum((np.cumsum(pr) * 12).astype(int), 11)
                n, pb = [np.bincount(at, weights=v, minlength=12) for v in (n, pr)]
            ok, msg = stats.counts_ok([int(v) for v in n], pb)
            if not ok or np.any(cd < 0):
                raise Violation('wrong-distribution', '{}: (count, samples, probability) = {}'.format(where, msg))
            # Binary feature for the tests of independence
            cum = np.cumsum(pr)
            a = int(np.argmin(np.abs(cum - .5)))
            if .1 < cum[a] < .9:
                cells.append((cd <= a, float(cum[a])))
    n = len(full)
    for a, (x, p) in enumerate(cells):
        for lag in (1, 2, 3, 64):
            z = np.dot(x[lag:] - p, x[:-lag] - p) / (np.sqrt(n - lag) * p * (1 - p))
            if abs(z) > 8:
                raise Violation('repetitions-not-independent', 'lag {} along {}: z = {}'.format(lag, axis, z))
        for b in range(a):
            y, r = cells[b]
            z = np.dot(x - p, y - r) / np.sqrt(n * p * (1 - p) * r * (1 - r))
            if abs(z) > 8:
                raise Violation('cells-not-independent', 'along {}: z = {}'.format(axis, z))
        w.notes['cells tested'] += 1
