"""C02: queries about a posterior are correct and leave it untouched."""
import numpy as np

from .. import shadow, zoo
from ..world import Violation
from . import c01

LEVEL = 'exploration'
RULE = ('A run reaches a posterior by a random history of updates, resamplings and resets (some outcomes and '
        'particles exactly impossible) and then asks a random sequence of queries, each twice, comparing the answers '
        'with enumeration over all outcomes and the whole state before and after.')
REAL = ['qinfer.smc.SMCUpdater', 'qinfer.distributions.ParticleDistribution', 'models of the zoo']
STUB = ['random source', 'uninitialised memory', 'clock']
STATES = 'hash of (model kind, query, number of updates and resamples)'
RUNS = dict(quick=5000, thorough=120000)
CHUNK = 16

SPECS = [s for s in zoo.STATIC + zoo.DRIFTING] + [
    {'kind': 'sim', 'kw': {'n_out': 3}, 'hard': 0.8},
    {'kind': 'sim', 'kw': {'varying': True, 'n_out': 3}, 'hard': 0.6},
    {'kind': 'randomwalk', 'base': {'kind': 'binomial', 'base': {'kind': 'precession'}}},
    {'kind': 'mle', 'base': {'kind': 'precession'}, 'pow': 1.0},
    {'kind': 'poisoned', 'base': {'kind': 'binomial', 'base': {'kind': 'noisycoin'}}, 'kw': {'tol': 0.0}},
    {'kind': 'sim', 'kw': {'n_out': 5}, 'hard': 0.5},
]
QUERIES = ['hyp', 'hyp', 'risk', 'risk', 'risk', 'eig', 'eig', 'eig', 'moments', 'entropy', 'sample', 'region',
           'alias', 'marginal', 'misc']


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    cfg = shadow.gen_config(rng, [spec])
    if spec['kind'] in ('multinomial', 'tomo'):
        cfg['n'] = min(cfg['n'], 50)
    setup = zoo.make(spec)
    ops = c01.gen_ops(rng, setup, rng.randrange(0, 10), allow=('upd', 'resample', 'reset'))
    out = []
    for k in range(rng.randrange(2, 8)):
        m = zoo.big(rng, rng.randrange(1, 5), .003, (40, 130, 257))
        qr = dict(op='ask', q=rng.choice(QUERIES), eps=[setup.gen(rng) for _ in range(m)],
                  us=[round(rng.random(), 6) for _ in range(3)])
        if rng.random() < .004 and spec['kind'] not in ('multinomial', 'tomo', 'gausshyper', 'ndie') and spec.get('base', {}).get('kind') != 'binomial':
            # many particles, many experiments
            qr.update(q='hyp', eps=[setup.gen(rng) for _ in range(rng.choice([5, 9, 17]))], us=[.9, .9, .5])
            cfg['n'] = rng.choice([3000, 7000, 12000])
        if spec['kind'] == 'sim' and rng.random() < .25:
            for e in qr['eps']:
                if rng.random() < .5:
                    e[1] = -1.0           # an outcome impossible for every particle
        out.append((rng.randrange(len(ops) + 1), qr))
    for pos, qr in sorted(out, key=lambda t: -t[0]):
        ops.insert(pos, qr)
    return dict(config=cfg, ops=ops, faults=[])


def outcome_array(setup, twin, ep):
    return zoo.outcome_values(twin.model, ep)


def ref_hyp(w, L):
    """L: (n_o, n_p) -> (weights, norm) with impossible outcomes at zero."""
    h = w * L
    n = h.sum(axis=1)
    return np.where(n[:, None] > 0, h / np.where(n > 0, n, 1)[:, None], 0), n


def ref_risk(w, x, L, Q):
    tot = 0.0
    hyp, n = ref_hyp(w, L)
    for o in range(L.shape[0]):
        if n[o] > 0:
            mu = hyp[o] @ x
            tot += n[o] * float(np.sum(hyp[o][:, None] * Q * (x - mu) ** 2))
    return tot


def ref_eig(w, L):
    hyp, n = ref_hyp(w, L)
    tot = 0.0
    for o in range(L.shape[0]):
        if n[o] > 0:
            p = hyp[o]
            m = p > 0
            tot += n[o] * float(np.sum(p[m] * np.log(p[m] / w[m])))
    return tot


def need(cond, code, msg=''):
    if not cond:
        raise Violation(code, msg)


def near(a, b, tol):
    return np.all(np.isfinite(a)) and np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol)


def ask(u, sh, setup, op, w):
    eps = setup.eps(op['eps'])
    x, wt = np.array(u.particle_locations), np.array(u.particle_weights)
    tm = sh.twin.model
    q = op['q']
    finite = 'finite' in setup.tags or setup.tags & {'unnormalised'} and op is not None
    real = 'real' in setup.tags
    Q = np.asarray(tm.Q)
    if len(Q) != x.shape[1]:
        Q = np.ones(x.shape[1])

    def L_of(e):
        os = outcome_array(setup, sh.twin, e)
        return os, tm.likelihood(os, x, e)[:, :, 0]

    if q == 'hyp':
        if real:
            os = np.round(np.array(op['us']) * 2 - 0.5, 3)
        else:
            sizes = [len(outcome_array(setup, sh.twin, eps[k:k + 1])) for k in range(len(eps))]
            if len(set(sizes)) > 1:
                eps = eps[:1]
            os = outcome_array(setup, sh.twin, eps[:1])
            if op['us'][0] < .5:
                os = os[:1 + int(op['us'][1] * len(os))]
        Lx = tm.likelihood(os, x, eps)
        W_, L, N = u.hypothetical_update(os, eps, return_likelihood=True, return_normalization=True)
        W2 = u.hypothetical_update(os, eps)
        W3, N2 = u.hypothetical_update(os, eps, return_normalization=True)
        W4, L2 = u.hypothetical_update(os, eps, return_likelihood=True)
        need(W_.shape == (len(os), len(eps), len(wt)), 'hyp-shape', str(W_.shape))
        need(np.array_equal(W_, W2) and np.array_equal(W_, W3) and np.array_equal(W_, W4)
             and np.array_equal(N, N2) and np.array_equal(L, L2), 'hyp-not-repeatable')
        need(shadow.close(np.asarray(L), Lx.transpose(0, 2, 1)), 'hyp-likelihood')
        for o in range(len(os)):
            for e in range(len(eps)):
                h = wt * Lx[o, :, e]
                n = h.sum()
                need(abs(float(N[o, e, 0]) - n) <= 1e-12 + 1e-9 * n, 'hyp-norm', '{} vs {}'.format(N[o, e], n))
                if n > 1e-15:
                    need(shadow.close(W_[o, e], h / n), 'hyp-weights', 'outcome {} experiment {}'.format(o, e))
                elif n == 0:
                    need(np.all(W_[o, e] == 0), 'hyp-impossible', str(W_[o, e][:4]))
        return
    if q in ('risk', 'eig'):
        if real:
            return
        fn = u.bayes_risk if q == 'risk' else u.expected_information_gain
        got = np.asarray(fn(eps))
        need(np.array_equal(got, np.asarray(fn(eps))), q + '-not-repeatable')
        need(got.shape == (len(eps),), q + '-shape', str(got.shape))
        scale = float(np.sum(Q * (x.max(axis=0) - x.min(axis=0)) ** 2)) if q == 'risk' else 1.0
        for e in range(len(eps)):
            os, L = L_of(eps[e:e + 1])
            ex = ref_risk(wt, x, L, Q) if q == 'risk' else ref_eig(wt, L)
            # The last outcome's likelihood is computed as a complement.
            tol = 1e-7 * (scale + abs(ex)) + 1e-12
            need(near(got[e], ex, tol), q + '-wrong', 'experiment {}: {} expected {}'.format(e, got[e], ex))
        w.notes[q + ' experiments'] += len(eps)
        return
    if q == 'moments':
        mu = u.est_mean()
        need(near(mu, wt @ x, 1e-9 * (1 + np.abs(x).max())), 'mean', str(mu))
        d = x - wt @ x
        ex = (d * wt[:, None]).T @ d
        cov = u.est_covariance_mtx()
        need(cov.shape == ex.shape and near(cov, ex, 1e-8 * (1 + np.abs(x).max() ** 2)), 'covariance')
        need(np.array_equal(cov, u.est_covariance_mtx()) and np.array_equal(mu, u.est_mean()), 'moments-not-repeatable')
        f = u.est_meanfn(lambda p: p ** 2 + 1)
        need(near(f, wt @ (x ** 2 + 1), 1e-8 * (1 + np.abs(x).max() ** 2)), 'meanfn')
        return
    if q == 'entropy':
        nz = wt[wt > 0]
        h = u.est_entropy()
        need(near(h, -np.sum(nz * np.log(nz)), 1e-9 * (1 + len(wt))), 'entropy', str(h))
        return
    if q == 'sample':
        s = u.sample(n=7)
        need(s.shape == (7, x.shape[1]), 'sample-shape', str(s.shape))
        alive = {r.tobytes() for r in x[wt > 0]}
        need(all(r.tobytes() in alive for r in np.ascontiguousarray(s)), 'sample-not-a-particle')
        s[...] = 77.0
        return
    if q == 'region':
        lev = 0.2 + 0.7 * op['us'][0]
        r, rest = u.est_credible_region(level=lev, return_outside=True)
        need(len(r) + len(rest) == len(x), 'region-count')
        r[...] = 55.0
        rest[...] = 55.0
        return
    if q == 'alias':
        # Results of queries are the caller's to modify.
        for a in (u.est_mean(), u.est_covariance_mtx(), u.sample(n=2), u.est_meanfn(lambda p: p)):
            a[...] = 1e9
        if not real:
            os = outcome_array(setup, sh.twin, eps[:1])
            for a in u.hypothetical_update(os, eps[:1], return_likelihood=True, return_normalization=True):
                a[...] = 3.0
            for fn in (u.bayes_risk, u.expected_information_gain):
                fn(eps)[...] = 4.0
        u.data_record.append('x')
        return
    if q == 'marginal':
        if len(np.unique(x[:, 0])) > 2:
            u.posterior_marginal(idx_param=0, res=20)
        if x.shape[1] > 1:
            u.posterior_mesh(res1=5, res2=5)
        return
    if q == 'misc':
        u.n_rvs, u.n_particles, u.n_ess, u.min_n_ess, u.resample_count, u.just_resampled
        u.log_total_likelihood
        repr(u)
        u.est_credible_region(level=0.5, modelparam_slice=np.s_[:1])
        return


def execute(sc, w):
    ops = sc['ops']
    u, sh, setup, probe = shadow.build(sc, w)
    for k, op in enumerate(ops):
        if op['op'] != 'ask':
            c01_step(u, sh, setup, op)
            sh.check('op {}'.format(k))
            continue
        before = shadow.snapshot(u)
        ask(u, sh, setup, op, w)
        d = shadow.same_snapshot(before, shadow.snapshot(u))
        if d:
            raise Violation('query-changed-' + d, op['q'])
        if probe.events:
            raise Violation('query-' + probe.events[0][0], '{} moved or resampled particles'.format(op['q']))
        w.state(sc['config']['model']['kind'], op['q'], sh.n_updates, sh.n_resamples)
        w.log(op['q'], u.particle_weights)
        w.notes['queries'] += 1


def c01_step(u, sh, setup, op):
    if op['op'] == 'upd':
        ep = setup.eps([op['ep']])
        o = sh.pick(op, ep)
        if o is None:
            return
        u.update(o, ep, check_for_resample=op['chk'])
        sh.bayes(o, ep)
        if op['chk']:
            sh.maybe_resample()
    elif op['op'] == 'resample':
        u.resample()
        sh.resample(forced=True)
    elif op['op'] == 'reset':
        c01.do_reset(u, sh, setup, op)
