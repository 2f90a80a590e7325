"""C26: posterior summaries are correct at every reachable posterior."""
import warnings

import numpy as np
from scipy.ndimage import gaussian_filter1d
import qinfer as q
from scipy.spatial import ConvexHull
from scipy.special import gammaincinv

from .. import shadow, stats, zoo
from .. import world as W
from ..world import Violation
try:
    from scipy.spatial import QhullError
except ImportError:
    from scipy.spatial.qhull import QhullError

LEVEL = 'exploration'
RULE = ('A run drives an updater through updates, impossible data under every policy, failing and forced resampling and resets, also plants '
        'posteriors with tied, zero, dyadic and concentrated weights, and after each step asks for summaries of the posterior, which are '
        'compared with their definitions evaluated by the harness on the weighted particles.')
REAL = ['qinfer.distributions.ParticleDistribution', 'qinfer.smc.SMCUpdater', 'qinfer.utils (ellipsoids)', 'qinfer.clustering (DBSCAN)', 'qinfer.resamplers',
        'models of the zoo', 'scipy.spatial']
STUB = ['random source (including extreme values)', 'uninitialised memory', 'model failures']
STATES = 'hash of (model, kind of posterior, summary, level class, slice, updates so far)'
RUNS = dict(quick=2500, thorough=90000)
CHUNK = 8
NEEDS_OPS = False
SPECS = [s for s in zoo.STATIC + zoo.DRIFTING if s['kind'] != 'poisoned'] + [{'kind': 'sim'}, {'kind': 'rb'}, {'kind': 'rbi'}, {'kind': 't2'}]
LEVELS = [0.0, 1e-9, .05, .1, .25, .5, .5, .75, .9, .95, .95, .99, 1.0, 1.0, 'exact', 'exact']
SUMMARIES = ['moments', 'moments', 'moments', 'region', 'region', 'region', 'region', 'region', 'hull', 'hull', 'inside', 'sample', 'extreme', 'cluster',
             'marginal', 'mesh']


def gen_q(rng):
    o = dict(what=rng.choice(SUMMARIES), level=rng.choice(LEVELS), k=rng.randrange(1, 40), u=round(rng.random(), 4), seed=rng.randrange(10 ** 6))
    o['slice'] = rng.choice([None, None, None, [0, 1], [0, 2], [1, None], [None, -1], [None, None, -1], [0, None, 2]])
    o['default'] = rng.random() < .1
    return o


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    setup = zoo.make(spec)
    policy = rng.choice(['error', 'skip', 'reset', 'error'])
    cfg = dict(model=spec, n=zoo.big(rng, rng.choice([1, 2, 3, 5, 12, 40, 40, 100])), thresh=rng.choice([0.0, .3, .5, .9]), lw=dict(a=rng.choice([.98, .9, 1.0])),
               kw=dict(zero_weight_policy=policy))
    ops = []
    for _ in range(rng.randrange(1, 10)):
        x = rng.random()
        op = dict(op='upd', ep=setup.gen(rng), u=round(rng.random(), 6), chk=rng.random() < .6, rare=rng.random() < .2)
        if x < .1:
            op.update(op='resample')
        elif x < .14:
            op.update(op='reset')
        elif x < .2:
            op.update(op='fail', where=rng.choice(['likelihood', 'update_timestep', 'resampler']))
        elif x < .5:
            op.update(op='plant', how=rng.choice(['ties', 'equal', 'dyadic', 'zeros', 'one', 'tiny', 'steps', 'random', 'clones']),
                      n=zoo.big(rng, rng.choice([None, None, 1, 2, 3, 4, 8, 10, 50])), d=rng.choice([1, 2, 2, 3]), seed=rng.randrange(10 ** 6),
                      scale=rng.choice([1, 1, 1, 1e-3, 100]), shift=rng.choice([0, 0, 0, 5, -100]))
        if op['op'] == 'plant' and rng.random() < .05:
            op['n'] = rng.choice([600, 1100, 4200, 10001, 30000])
            op['qs'] = [dict(gen_q(rng), what=rng.choice(['sample', 'moments', 'moments', 'region'])) for _ in range(3)]
            ops.append(op)
            continue
        op['qs'] = [gen_q(rng) for _ in range(rng.randrange(1, 5))]
        ops.append(op)
    return dict(config=cfg, ops=ops, faults=[])


def execute(sc, w):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        _run(sc, w)


def plant(op):
    r = np.random.RandomState(op['seed'])
    n = op['n'] or 20
    x = r.randn(n, op['d']) * op['scale'] + op['shift']
    wt = r.rand(n)
    how = op['how']
    if how == 'ties':
        wt = r.randint(1, 4, size=n).astype(float)
    elif how == 'equal':
        wt = np.ones(n)
    elif how == 'dyadic':
        wt = 2.0 ** -r.randint(0, 5, size=n)
    elif how == 'zeros':
        wt = wt * (r.rand(n) < .4)
        wt[r.randint(n)] = .3
    elif how == 'one':
        wt = np.zeros(n)
        wt[r.randint(n)] = 1
    elif how == 'tiny':
        wt = 10.0 ** -r.randint(0, 300, size=n)
    elif how == 'steps':
        wt = np.repeat([4.0, 2.0, 1.0, 0.0], -(-n // 4))[:n][r.permutation(n)]
    elif how == 'clones':
        x = x[r.randint(0, max(1, n // 3), size=n)]
    if wt.sum() == 0:
        wt[0] = 1
    return x, wt


def _run(sc, w):
    c = sc['config']
    u, sh, setup, probe = shadow.build(sc, w)
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({})'.format(k, op['op'])
        probe.events[:] = []
        dist, kind = u, op['op']
        if op['op'] == 'plant':
            x, wt = plant(op)
            kind = op['how']
            dist = q.ParticleDistribution(particle_locations=x.copy(), particle_weights=wt.copy())
            if not np.array_equal(dist.particle_locations, x) or not shadow.close(dist.particle_weights, wt / wt.sum(), 1e-12, 0) \
                    or dist.n_particles != len(x) or dist.n_rvs != x.shape[1]:
                raise Violation('distribution-of-given-particles', what)
        else:
            try:
                step(op, what, u, sh, setup, probe, w)
            except np.linalg.LinAlgError:
                raise W.Abandon('degenerate cloud')
        wt, x = np.array(dist.particle_weights), np.array(dist.particle_locations)
        if not np.all(np.isfinite(wt)) or wt.min() < 0 or abs(wt.sum() - 1) > 1e-9:
            raise Violation('not-a-distribution', '{}: weights sum to {}'.format(what, wt.sum()))
        for o in op['qs']:
            tag = summary(o, what + ' ' + o['what'], dist, wt, x, w)
            if not np.array_equal(wt, dist.particle_weights) or not np.array_equal(x, dist.particle_locations):
                raise Violation('summary-changed-posterior', what + ' ' + o['what'])
            w.state(str(c['model']), kind, o['what'], tag, str(o['slice']), min(sh.n_updates, 4))
            w.step()
        w.log(what, wt, x)


def step(op, what, u, sh, setup, probe, w):
    ep = setup.eps([op['ep']])
    if op['op'] in ('upd', 'fail'):
        o = sh.pick(op, ep)
        if o is None:
            return
        if op['op'] == 'fail':
            probe.arm(op['where'], 0, 'before')
        try:
            u.update(o, ep, check_for_resample=op['chk'])
        except (W.SimFault, RuntimeError):
            pass
        probe.disarm()
        sh.n_updates += 1
    elif op['op'] == 'resample':
        u.resample()
    elif op['op'] == 'reset':
        u.reset()
    probe.events[:] = []
    sh.sync()


def _slice(s):
    return slice(*s) if s is not None else None


def level_of(o, wt):
    if o['level'] != 'exact':
        return o['level']
    c = np.cumsum(np.sort(wt)[::-1])
    return float(min(c[min(o['k'], len(wt)) - 1], 1.0))


def summary(o, what, d, wt, x, w):
    if o['slice'] is not None and x[:, _slice(o['slice'])].shape[1] == 0:
        o = dict(o, slice=None)
    return globals()['s_' + o['what']](o, what, d, wt, x, w)


def near(got, want, tol, code, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(code, '{}: shape {} expected {}'.format(what, got.shape, want.shape))
    if not np.all((np.abs(got - want) <= tol) | (got == want)):
        raise Violation(code, '{}: {} expected {}'.format(what, got.tolist(), want.tolist()))


def s_moments(o, what, d, wt, x, w):
    m = np.sum(wt[:, None] * x, axis=0)
    s = 1 + np.max(np.abs(x))
    near(d.est_mean(), m, 1e-11 * s, 'mean', what)
    y = x - m
    cov = np.einsum('n,ni,nj->ij', wt, y, y)
    near(d.est_covariance_mtx(), cov, 1e-11 * s ** 2, 'covariance', what)
    v = np.diag(cov)
    if v.min() > 1e-4 * s ** 2:
        near(d.est_covariance_mtx(corr=True), cov / np.sqrt(np.outer(v, v)), 1e-6, 'correlation', what)
        near(d.est_covariance_mtx(), cov, 1e-11 * s ** 2, 'covariance', what + ' after correlation')
    for f, code in [(lambda z: z, 'identity'), (lambda z: np.cos(z[:, 0]), 'scalar'), (lambda z: np.stack([z[:, 0] ** 2, z[:, -1], np.ones(len(z))], axis=1), 'vector'),
                    (lambda z: z[:, :, None] * z[:, None, :], 'matrix')]:
        v = f(x)
        near(d.est_meanfn(f), np.tensordot(wt, v, 1), 1e-11 * (1 + np.max(np.abs(v))), 'meanfn-' + code, what)
    nz = wt[wt > 0]
    near(d.est_entropy(), -np.sum(nz * np.log(nz)), 1e-10 * (1 + np.log(len(wt))), 'entropy', what)
    e = 1 / np.sum(wt ** 2)
    near(d.n_ess, e, 1e-10 * e, 'effective-sample-size', what)
    if not 1 - 1e-9 <= d.n_ess <= len(wt) * (1 + 1e-9):
        raise Violation('effective-sample-size-range', '{}: {} of {}'.format(what, d.n_ess, len(wt)))
    return int(len(nz))


def region_kw(o, wt):
    level = level_of(o, wt)
    kw = {}
    if not (o['default'] and o['level'] == .95):
        kw['level'] = level
    if o['slice'] is not None:
        kw['modelparam_slice'] = _slice(o['slice'])
    return level, kw


def columns(o, x):
    return x if o['slice'] is None else x[:, _slice(o['slice'])]


def s_region(o, what, d, wt, x, w):
    level, kw = region_kw(o, wt)
    y = columns(o, x)
    inside = d.est_credible_region(**kw)
    both = d.est_credible_region(return_outside=True, **kw)
    if not isinstance(both, tuple) or len(both) != 2:
        raise Violation('region-format', what)
    what += ' at level {!r} of weights {}'.format(level, np.sort(wt)[::-1][:8].tolist())
    rows = {}
    for i, r in enumerate(y):
        rows.setdefault(np.ascontiguousarray(r).tobytes(), []).append(wt[i])
    for v in rows.values():
        v.sort(reverse=True)
    for ins in (inside, both[0]):
        ins = np.asarray(ins)
        if ins.ndim != 2 or ins.shape[1] != y.shape[1]:
            raise Violation('region-shape', '{}: {}'.format(what, ins.shape))
        left = {k: list(v) for k, v in rows.items()}
        ws = []
        for r in ins:
            k = np.ascontiguousarray(r).tobytes()
            if not left.get(k):
                raise Violation('region-duplicates-or-invents', what)
            ws.append(left[k].pop(0))
        ws = np.array(ws)
        if not len(ws):
            raise Violation('region-empty', what)
        if ws.sum() < level - 1e-11:
            raise Violation('region-too-light', '{}: {}'.format(what, ws.sum()))
        if len(ws) > 1 and ws.sum() - ws.min() >= level + 1e-11:
            raise Violation('region-too-large', '{}: {} of {} particles, {} without the last'.format(what, len(ws), len(wt), ws.sum() - ws.min()))
        if len(ws) > 1 and ws.min() == 0:
            raise Violation('region-has-weightless-particles', what)
        # With several copies of a row, any of their weights may be meant: compare totals.
        best = np.sort(wt)[::-1][:len(ws)]
        if abs(best.sum() - ws.sum()) > 1e-11:
            raise Violation('region-not-heaviest', '{}: {} instead of {}'.format(what, ws.sum(), best.sum()))
    out = np.asarray(both[1]).reshape(-1, y.shape[1])
    if len(both[0]) + len(out) != len(y):
        raise Violation('region-loses-particles', '{}: {} + {} of {}'.format(what, len(both[0]), len(out), len(y)))
    allrows = np.concatenate([both[0], out]) if len(out) else both[0]
    if sorted(map(bytes, np.ascontiguousarray(allrows))) != sorted(map(bytes, np.ascontiguousarray(y))):
        raise Violation('region-loses-particles', what)
    if sorted(map(bytes, np.ascontiguousarray(both[0]))) != sorted(map(bytes, np.ascontiguousarray(inside))) and len(set(wt)) == len(wt):
        raise Violation('region-differs-with-outside', what)
    return len(inside) == len(wt), level in (0, 1), o['level'] == 'exact'


def hull_of(pts):
    """Facet equations of the hull, or None if the points do not span the space comfortably."""
    d = pts.shape[1]
    if d < 2 or d > 4 or len(np.unique(pts, axis=0)) < d + 2:
        return None
    s = np.linalg.svd(pts - pts.mean(axis=0), compute_uv=False)
    if s[-1] < 1e-3 * s[0] or s[0] < 1e-5 * (1 + np.max(np.abs(pts))):
        return None
    try:
        return ConvexHull(pts)
    except QhullError:
        return None


def s_hull(o, what, d, wt, x, w):
    level, kw = region_kw(o, wt)
    pts = np.asarray(d.est_credible_region(**kw))
    h = hull_of(pts)
    if h is None or len(h.vertices) > 60:
        return 'flat'
    size = np.max(np.abs(pts - pts.mean(axis=0)))
    faces, verts = d.region_est_hull(**kw)
    dim = pts.shape[1]
    if faces.ndim != 3 or faces.shape[1:] != (dim, dim) or verts.ndim != 2 or verts.shape[1] != dim:
        raise Violation('hull-shape', '{}: {} {}'.format(what, faces.shape, verts.shape))
    known = set(map(bytes, np.ascontiguousarray(pts)))
    for r in np.concatenate([faces.reshape(-1, dim), verts]):
        if bytes(np.ascontiguousarray(r)) not in known:
            raise Violation('hull-of-other-points', what)
    if len(np.unique(verts, axis=0)) != len(verts):
        raise Violation('hull-repeats-vertices', what)
    try:
        g = ConvexHull(verts)
    except QhullError:
        raise Violation('hull-degenerate', what)
    out = np.max(g.equations[:, :-1] @ pts.T + g.equations[:, -1:])
    if out > 1e-7 * size:
        raise Violation('region-outside-hull', '{}: by {}'.format(what, out))
    # every face is on the boundary
    for f in faces:
        on = h.equations[:, :-1] @ f.T + h.equations[:, -1:]
        if np.min(np.max(np.abs(on), axis=1)) > 1e-6 * size:
            raise Violation('face-not-on-hull', what)
    tol = [1e-4, 1e-3, 1e-2][o['k'] % 3]
    ekw = {} if tol == 1e-4 else dict(tol=tol)
    A, ctr = d.region_est_ellipsoid(**dict(kw, **ekw))
    if A.shape != (dim, dim) or np.shape(ctr) != (dim,):
        raise Violation('ellipsoid-shape', '{}: {} {}'.format(what, A.shape, np.shape(ctr)))
    z = pts - ctr
    form = np.einsum('ni,ij,nj->n', z, np.linalg.inv(A), z)
    slack = 1 + 10 * tol * (dim + 1) + 1e-6
    if form.max() > slack:
        raise Violation('region-outside-ellipsoid', '{}: {} at tolerance {}'.format(what, form.max(), tol))
    # John's theorem: the minimal ellipsoid, shrunk by the dimension, lies within the hull.
    if form.max() < 1 / slack:
        raise Violation('ellipsoid-not-minimal', '{}: {}'.format(what, form.max()))
    nrm = h.equations[:, :-1]
    reach = nrm @ ctr + h.equations[:, -1] + np.sqrt(np.einsum('fi,ij,fj->f', nrm, A, nrm)) / dim
    if np.max(reach) > (.05 + 20 * tol * dim) * size:
        raise Violation('ellipsoid-not-minimal', '{}: {} beyond hull of size {}'.format(what, np.max(reach), size))
    w.notes['hulls compared'] += 1
    return 'hull', dim


def s_inside(o, what, d, wt, x, w):
    level, kw = region_kw(o, wt)
    y = columns(o, x)
    dim = y.shape[1]
    r = np.random.RandomState(o['seed'])
    m = wt @ y
    cov = np.einsum('n,ni,nj->ij', wt, y - m, y - m)
    if dim == 0 or dim > 4 or np.linalg.eigvalsh(cov)[0] < 1e-8 * (1 + np.max(np.abs(y))) ** 2:
        return 'flat'
    pts = np.concatenate([m + r.randn(12, dim) @ np.linalg.cholesky(cov).T * 1.5, y[:10], m[None]])
    lv = level if 0 < level < 1 else .9
    kw['level'] = lv
    got = np.asarray(d.in_credible_region(pts, method='pce', **kw))
    form = np.einsum('ni,ij,nj->n', pts - m, np.linalg.inv(cov), pts - m)
    cut = 2 * gammaincinv(dim / 2, lv)
    sure = np.abs(form - cut) > 1e-5 * cut
    if got.shape != (len(pts),) or np.any(got[sure] != (form <= cut)[sure]):
        raise Violation('covariance-ellipsoid', '{} at {}: {} expected {}'.format(what, lv, got, form <= cut))
    one = d.in_credible_region(pts[0], method='pce', **kw)
    if np.size(one) != 1 or (sure[0] and bool(np.ravel(one)[0]) != bool(form[0] <= cut)):
        raise Violation('covariance-ellipsoid-single', what)
    reg = np.asarray(d.est_credible_region(**kw))
    h = hull_of(reg)
    if h is None or len(h.vertices) > 60:
        return 'pce'
    size = np.max(np.abs(reg - reg.mean(axis=0)))
    # pulled inwards, every particle of the region is inside
    inner = reg + 1e-3 * (reg.mean(axis=0) - reg)
    test = np.concatenate([pts, inner])
    dist = np.max(h.equations[:, :-1] @ test.T + h.equations[:, -1:], axis=0)
    sure = np.abs(dist) > 1e-7 * size
    mkw = dict(kw) if o['k'] % 2 else dict(kw, method='hpd-hull')
    got = np.asarray(d.in_credible_region(test, **mkw))
    if got.shape != (len(test),) or np.any(got[sure] != (dist < 0)[sure]):
        raise Violation('in-hull', '{} at {}: {} expected {}'.format(what, lv, got, dist < 0))
    got = np.asarray(d.in_credible_region(test, method='hpd-mvee', **kw))
    inner2 = reg + 1e-2 * (reg.mean(axis=0) - reg)
    got2 = np.asarray(d.in_credible_region(inner2, method='hpd-mvee', **kw))
    if not np.all(got2):
        raise Violation('region-outside-ellipsoid', '{} at {}: {}'.format(what, lv, got2))
    if np.any((dist < -2e-2 * size) & ~got):
        raise Violation('hull-outside-ellipsoid', what)
    far = reg.mean(axis=0) + 10 * size * np.sqrt(dim) * dim * np.eye(dim)[:1]
    for meth in ('hpd-hull', 'hpd-mvee'):
        if np.any(d.in_credible_region(far, method=meth, **kw)):
            raise Violation('far-point-inside', '{} {}'.format(what, meth))
    w.notes['membership compared'] += 1
    return 'all', dim


def s_sample(o, what, d, wt, x, w):
    n = [o['k'] * 10, o['k'] * 10, len(wt), 2 * len(wt), 3000][o['seed'] % 5]
    s = np.asarray(d.sample(n))
    if s.shape != (n, x.shape[1]):
        raise Violation('sample-shape', '{}: {}'.format(what, s.shape))
    rows, groups = {}, []
    for i, r in enumerate(x):
        k = np.ascontiguousarray(r).tobytes()
        if k not in rows:
            rows[k] = len(groups)
            groups.append(0.0)
        groups[rows[k]] += wt[i]
    p = np.array(groups)
    cnt = np.zeros(len(p))
    for r in s:
        j = rows.get(np.ascontiguousarray(r).tobytes())
        if j is None:
            raise Violation('sample-not-a-particle', what)
        if p[j] == 0:
            raise Violation('sample-of-weightless-particle', what)
        cnt[j] += 1
    one = np.asarray(d.sample())
    if one.shape != (1, x.shape[1]):
        raise Violation('sample-shape', '{}: one sample has shape {}'.format(what, one.shape))
    # exact binomial tail for every particle (union bound over particles)
    from scipy.stats import binom
    z = p / p.sum()
    lo, hi = binom.cdf(cnt, n, z), binom.sf(cnt - 1, n, z)
    bad = np.minimum(lo, hi) < 1e-13 / len(p)
    bad &= ~((z > 1 - 1e-12) & (cnt == n))
    if np.any(bad):
        j = int(np.argmax(bad))
        raise Violation('sample-frequency', '{}: weight {} drawn {} of {} times'.format(what, z[j], cnt[j], n))
    w.notes['samples counted'] += n
    return 'one' if (wt > 0).sum() == 1 else 'several'


def s_extreme(o, what, d, wt, x, w):
    """Samples, when the random source returns its extreme values."""
    keep = w.extreme_p
    w.extreme_p = 1.0
    try:
        s = np.asarray(d.sample(o['k']))
    finally:
        w.extreme_p = keep
    ok = set(map(bytes, np.ascontiguousarray(x[wt > 0])))
    for r in np.ascontiguousarray(s):
        if bytes(r) not in ok:
            raise Violation('sample-of-weightless-particle', '{} (extreme random values)'.format(what))
    return (wt == 0).any()


def s_cluster(o, what, d, wt, x, w):
    s = np.max(np.abs(x - x.mean(axis=0)))
    if len(x) < 3 or s == 0:
        return 'few'
    opts = dict(eps=float(s) * (.1 + o['u']), min_particles=1 + o['k'] % 6)
    ms = list(d.est_cluster_moments(opts))
    tot = sum(m[1] for m in ms)
    if abs(tot - 1) > 1e-9:
        raise Violation('cluster-weights', '{}: {}'.format(what, tot))
    if len({m[0] for m in ms}) != len(ms):
        raise Violation('cluster-labels', what)
    sc = 1 + np.max(np.abs(x))
    # Independent clustering: connected by core points within eps
    n = len(x)
    D = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    if np.any(np.abs(D - opts['eps']) < 1e-9 * sc):
        return 'ambiguous'
    near_ = D <= opts['eps']
    core = near_.sum(1) >= opts['min_particles']
    lab, nl = np.full(n, -1), 0
    for i in range(n):
        if core[i] and lab[i] < 0:
            stack, comp = [i], []
            lab[i] = nl
            while stack:
                j = stack.pop()
                for m in np.nonzero(near_[j] & core & (lab < 0))[0]:
                    lab[m] = nl
                    stack.append(m)
            nl += 1
    border = ~core & (near_ & core[None]).any(1)
    if border.any():
        # Where a border particle is adjacent to two clusters, the choice is arbitrary.
        for i in np.nonzero(border)[0]:
            ls = set(lab[np.nonzero(near_[i] & core)[0]])
            if len(ls) > 1:
                return 'ambiguous'
            lab[i] = ls.pop()
    want = []
    for l in sorted(set(lab)):
        idx = lab == l
        W_ = wt[idx].sum()
        if W_ > 0:
            p = wt[idx] / W_
            mu = p @ x[idx]
            want.append((W_, mu, np.einsum('n,ni,nj->ij', p, x[idx] - mu, x[idx] - mu)))
    got = [m for m in ms if m[1] > 0]
    if len(got) != len(want):
        raise Violation('number-of-clusters', '{}: {} expected {}'.format(what, len(got), len(want)))
    key = lambda t: (round(float(t[0]), 9),) + tuple(np.round(t[1], 6))
    for g, v in zip(sorted((m[1:] for m in got), key=key), sorted(want, key=key)):
        if abs(g[0] - v[0]) > 1e-9 or np.max(np.abs(g[1] - v[1])) > 1e-8 * sc or np.max(np.abs(g[2] - v[2])) > 1e-8 * sc ** 2:
            raise Violation('cluster-moments', '{}: {} expected {}'.format(what, g, v))
    m = wt @ x
    cov = np.einsum('n,ni,nj->ij', wt, x - m, x - m)
    if x.shape[1] > 1:
        wi, be, to = d.est_cluster_covs(opts)
        near(to, cov, 1e-8 * sc ** 2, 'total-of-cluster-covariances', what)
        near(wi, sum(v[0] * v[2] for v in want), 1e-8 * sc ** 2, 'within-clusters', what)
        near(be, cov - wi, 1e-8 * sc ** 2, 'between-clusters', what)
        if np.diag(cov).min() > 1e-4 * sc ** 2:
            near(d.est_cluster_metric(opts), np.diag(be) / np.diag(to), 1e-5, 'cluster-metric', what)
    w.notes['clusterings compared'] += 1
    return len(want)


def s_marginal(o, what, d, wt, x, w):
    if not hasattr(d, 'posterior_marginal'):
        return 'n/a'
    j = o['k'] % x.shape[1]
    v = x[:, j]
    lo, hi = v.min(), v.max()
    if len(np.unique(v)) < len(v) or hi - lo < 1e-9 or len(v) < 2:
        return 'flat'
    kw = {}
    if o['seed'] % 3 == 1:
        kw = dict(range_min=lo - (hi - lo) * o['u'], range_max=hi + (hi - lo) * .3)
    elif o['seed'] % 3 == 2:
        kw = dict(range_min=lo + (hi - lo) * .3 * o['u'], range_max=hi - (hi - lo) * .2)
    if o['seed'] % 5 == 0:
        # a range which starts or ends at zero, or of which only one end is given
        zero = 0 if o['seed'] % 2 else 0.0
        if lo > 0 or 0 > lo > -.3 * (hi - lo):
            kw = dict(range_min=zero)
        elif hi < 0 or 0 < hi < .3 * (hi - lo):
            kw = dict(range_max=zero)
        elif kw:
            kw.pop(sorted(kw)[o['seed'] // 5 % 2])
    res = 20 + o['k']
    ps, pr = d.posterior_marginal(j, res, **kw)
    a, b = kw.get('range_min', lo), kw.get('range_max', hi)
    near(ps, np.linspace(a, b, res), 1e-9 * (1 + abs(a) + abs(b)), 'marginal-axis', what)
    s = np.argsort(v)
    cdf = np.interp(ps, np.append(v[s], b + (b - a)) if b + (b - a) > v.max() else v[s],
                    np.append(np.cumsum(wt[s]), 1) if b + (b - a) > v.max() else np.cumsum(wt[s]), left=0)
    want = np.gradient(cdf, ps[1] - ps[0])
    # where an axis point coincides with a particle up to rounding, either side of a jump may be meant
    if np.min(np.abs(ps[:, None] - lo)) < 1e-9 * (1 + abs(lo)) and a != lo:
        return 'ambiguous'
    near(pr, want, 1e-6 * (1 + np.max(np.abs(want))), 'marginal', what)
    width = (b - a) * (.02 + .1 * o['u'])
    sm = d.posterior_marginal(j, res, smoothing=width, **kw)[1]
    # the step of the axis is taken as range/res or range/(res - 1)
    s0, s1 = (gaussian_filter1d(want, n * width / (b - a)) for n in (res, res - 1))
    near(sm, s0, 3 * np.max(np.abs(s0 - s1)) + 1e-3 * (1e-6 + np.max(np.abs(want))), 'marginal-smoothing', what)
    return 'range' if kw else 'default'


def s_mesh(o, what, d, wt, x, w):
    if not hasattr(d, 'posterior_mesh') or x.shape[1] < 2 or len(x) > 60:
        return 'n/a'
    i, j = (0, 1) if o['k'] % 3 else (x.shape[1] - 1, 0)
    if i == j:
        return 'n/a'
    r1, r2 = 3 + o['k'] % 5, 4 + o['seed'] % 4
    s = .1 + .3 * o['u']
    p1, p2, pr = d.posterior_mesh(i, j, r1, r2, s)
    if not (p1.shape == p2.shape == pr.shape):
        raise Violation('mesh-shape', '{}: {} {} {}'.format(what, p1.shape, p2.shape, pr.shape))
    for p, k, r in ((p1, i, r1), (p2, j, r2)):
        near(np.unique(p), np.unique(np.linspace(x[:, k].min(), x[:, k].max(), r)), 1e-9 * (1 + np.max(np.abs(x))), 'mesh-axis', what)
    want = sum(wt[n] * np.exp(-((p1 - x[n, i]) ** 2 + (p2 - x[n, j]) ** 2) / (2 * s * s)) for n in range(len(x))) / (2 * np.pi * s * s)
    near(pr, want, 1e-8 * (1 + np.max(want)), 'mesh-density', what)
    return r1 == r2
