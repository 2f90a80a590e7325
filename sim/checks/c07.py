"""C07: distributing a model over engines never changes its answers."""
import warnings

import numpy as np
import qinfer as q

from .. import cluster, shadow, stats, zoo
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run evaluates, simulates and infers through a model distributed over a simulated cluster (random engine '
        'count, threshold, completion order, stragglers, engines joining) and compares with the serial model and '
        'with what the engines saw.')
REAL = ['qinfer.parallel.DirectViewParallelizedModel', 'qinfer.derived_models', 'qinfer.smc.SMCUpdater',
        'models of the zoo', 'ipyparallel.serialize (task and result serialisation)',
        'ipyparallel.client.map.Map (partitioning)']
STUB = ['ipyparallel DirectView, engines and network', 'random source (one per engine)', 'uninitialised memory']
STATES = 'completion orders and hash of (model, engines, particles relative to engines and threshold, operation)'
RUNS = dict(quick=5000, thorough=120000)
CHUNK = 8

SPECS = [s for s in zoo.STATIC + zoo.DRIFTING if s['kind'] != 'coin'] + [
    {'kind': 'mle', 'base': {'kind': 't2'}}, {'kind': 'poisoned', 'base': {'kind': 't2'}, 'kw': {'tol': 0.0}}]
OPS = ['L', 'L', 'L', 'sim', 'sim', 'tag', 'tag', 'coin', 'infer', 'mutate', 'cache', 'join', 'leave', 'sub', 'threshold']


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    ne = zoo.big(rng, rng.choice([1, 1, 2, 3, 4, 5, 8]), .02, (12, 17, 40))
    thr = rng.choice([None, 0, 1, 2, 5, 11, 40])
    setup = zoo.make(spec)
    ops = []
    for _ in range(rng.randrange(2, 9)):
        op = dict(op=rng.choice(OPS))
        t = 10 * ne if thr is None else thr
        op['n'] = rng.choice([1, 2, ne, ne + 1, 2 * ne + 1, t, t + 1, max(1, t - 1), t + 2, 3 * t + 1,
                              rng.randrange(1, 70)]) or 1
        op['n'] = zoo.big(rng, min(op['n'], 250))
        op['eps'] = [setup.gen(rng) for _ in range(rng.choice([1, 1, 2, 3, 12]))]
        op['rep'] = rng.choice([1, 1, 2, 5])
        op['split'] = rng.random() < .6
        op['u'] = round(rng.random(), 6)
        op['us'] = [round(rng.random(), 6) for _ in range(4)]
        ops.append(op)
    plan = []
    if rng.random() < .3:
        plan = [dict(at=rng.randrange(0, 12), kind='join') for _ in range(rng.choice([1, 2]))]
    for _ in range(rng.choice([0, 0, 1, 2])):
        plan.append(dict(kind='slow', map=rng.randrange(0, 5), who=rng.randrange(8)))
    return dict(config=dict(model=spec, engines=ne, thr=thr), ops=ops, faults=plan)


def eff_threshold(c, ne0):
    return 10 * ne0 if c['thr'] is None else c['thr']


def eq_struct(a, b):
    return a.dtype == b.dtype and a.tobytes() == b.tobytes()


def check_log(log, kind, mps, os, eps, above, split='mps', rep=None):
    if not above:
        if any(l[0] is not None for l in log):
            raise Violation('work-sent-below-threshold', '{} particles'.format(len(mps)))
        return
    eng = [l for l in log if l[2] == kind]
    if any(l[0] is None for l in eng):
        raise Violation('evaluated-locally-above-threshold', '')
    axis, whole, got = (mps, eps, 3) if split == 'mps' else (eps, mps, 5)
    eng.sort(key=lambda l: l[1])
    cat = np.concatenate([l[got] for l in eng]) if eng else axis[:0]
    if len(cat) != len(axis) or sorted(r.tobytes() for r in np.ascontiguousarray(cat)) != \
            sorted(r.tobytes() for r in np.ascontiguousarray(axis)):
        raise Violation('not-evaluated-exactly-once', '{} evaluated of {}'.format(len(cat), len(axis)))
    for l in eng:
        if not eq_struct(np.asarray(l[8 - got]), np.asarray(whole)):
            raise Violation('engine-got-other-arguments', '')
        if kind == 'L' and not eq_struct(np.asarray(l[4]), np.asarray(os)):
            raise Violation('engine-got-other-outcomes', '')
        if kind == 'S' and l[4] != rep:
            raise Violation('engine-got-other-repeat', '{} for {}'.format(l[4], rep))
        if len(l[got]) == 0:
            raise Violation('empty-task', '')


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    cluster.LOG[:] = []
    setup, twin = zoo.make(c['model']), zoo.make(c['model'])
    dv = cluster.SimDirectView(w, c['engines'])
    kw = {} if c['thr'] is None else dict(serial_threshold=c['thr'])
    model = q.DirectViewParallelizedModel(cluster.LoggedModel(setup.model), dv, **kw)
    thr = eff_threshold(c, c['engines'])
    dv.plan = [dict(p) for p in sc['faults']]
    dv.events = 0
    real = 'real' in setup.tags
    for k, op in enumerate(sc['ops']):
        kind, n = op['op'], op['n']
        eps = setup.eps(op['eps'])
        if kind in ('L', 'mutate', 'sim', 'infer', 'sub'):
            mps = np.array(setup.prior.sample(n))
        w.state(str(c['model']), c['engines'], np.sign(n - thr), n % max(1, c['engines']) == 0, kind)
        cluster.LOG[:] = []
        if kind in ('L', 'mutate', 'sub'):
            os = (np.array(op['us']) * 2 - .5 if real else zoo.outcome_values(twin.model, eps[:1]))
            if kind == 'sub':
                os = os[:1]
            m0, o0, e0 = mps.copy(), os.copy(), eps.copy()
            L = model.likelihood(os, mps, eps)
            check_log(cluster.LOG, 'L', m0, o0, e0, n > thr)
            if not (np.array_equal(mps, m0) and eq_struct(os, o0) and eq_struct(eps, e0)):
                raise Violation('arguments-changed', '')
            ref = twin.model.likelihood(os, mps, eps)
            if L.shape != ref.shape:
                raise Violation('likelihood-shape', '{} expected {}'.format(L.shape, ref.shape))
            if not shadow.close(L, ref, rt=1e-12):
                raise Violation('likelihood-differs', 'by {}'.format(np.abs(L - ref).max()))
            if kind == 'mutate':
                # the caller changes its arrays in place and asks again
                mps[:] = mps[::-1].copy()
                eps[:] = eps[::-1].copy()
                if real:
                    os[:] = os + 0.125
                cluster.LOG[:] = []
                L = model.likelihood(os, mps, eps)
                check_log(cluster.LOG, 'L', mps, os, eps, n > thr)
                if not shadow.close(L, twin.model.likelihood(os, mps, eps), rt=1e-12):
                    raise Violation('likelihood-of-old-arguments', '')
            w.log(L)
        elif kind == 'sim':
            if not setup.model.is_n_outcomes_constant:
                eps = np.repeat(eps[:1], len(eps), axis=0)
            d = model.simulate_experiment(mps, eps, repeat=op['rep'], split_by_modelparams=op['split'])
            m = n if op['split'] else len(eps)
            check_log(cluster.LOG, 'S', mps, None, eps, m > thr, 'mps' if op['split'] else 'eps', op['rep'])
            ref = twin.model.simulate_experiment(mps, eps, repeat=op['rep'])
            if np.shape(d) != np.shape(ref):
                raise Violation('data-shape', '{} expected {}'.format(np.shape(d), np.shape(ref)))
            if np.asarray(d).dtype.kind != np.asarray(ref).dtype.kind:
                raise Violation('data-dtype', '{} expected {}'.format(np.asarray(d).dtype, np.asarray(ref).dtype))
            w.log(np.asarray(d))
        elif kind == 'tag':
            tm = q.DirectViewParallelizedModel(cluster.LoggedModel(cluster.TagModel()), dv, serial_threshold=thr)
            mps = np.stack([np.arange(n), np.zeros(n)], axis=1).astype(float)
            eps = np.zeros((len(op['eps']) * 3,), dtype=[('k', 'int')])
            eps['k'] = np.arange(len(eps)) * 7 + 1
            d = np.asarray(tm.simulate_experiment(mps, eps, repeat=op['rep'], split_by_modelparams=op['split']))
            t = np.repeat(cluster.TagModel.tag(mps, eps)[None], op['rep'], axis=0)
            if d.size != t.size or not np.array_equal(d.reshape(t.shape), t):
                raise Violation('data-of-wrong-particle-or-experiment', '{} by {}'.format(n, len(eps)))
            if d.shape != t.shape and t.size > 1:
                raise Violation('data-shape', '{} expected {}'.format(d.shape, t.shape))
        elif kind == 'coin':
            cm = q.DirectViewParallelizedModel(q.NDieModel(3), dv, serial_threshold=thr)
            p = np.array([0.2, 0.5, 0.3])
            mps = np.repeat(p[None], n, axis=0)
            mps[::2] = [1, 0, 0]
            rep = 400
            d = np.asarray(cm.simulate_experiment(mps, np.zeros((2,), dtype=[('exp_num', 'int')]), repeat=rep,
                                                  split_by_modelparams=op['split']))
            if d.shape != (rep, n, 2):
                raise Violation('data-shape', str(d.shape))
            if np.any(d[:, ::2] != 0):
                raise Violation('data-of-wrong-particle-or-experiment', 'impossible outcome')
            if n > 1:
                ok, info = stats.counts_ok(np.bincount(d[:, 1::2].ravel(), minlength=3), p)
                if not ok:
                    raise Violation('data-distribution', str(info))
            w.log(d)
        elif kind == 'infer':
            infer(sc, op, w, dv, thr)
        elif kind == 'cache':
            model.clear_cache()
        elif kind == 'join':
            dv.join()
        elif kind == 'leave':
            if len(dv.alive) > 1:
                dv.leave(int(op['u'] * 8))
        elif kind == 'threshold':
            # as many particles as the threshold allows, and one more
            for m in (thr, thr + 1):
                if m < 1 or m > 300:
                    continue
                mps = np.array(setup.prior.sample(m))
                os = np.array([0.25, 0.5]) if real else zoo.outcome_values(twin.model, eps[:1])
                t0 = dv.tasks
                cluster.LOG[:] = []
                model.likelihood(os, mps, eps)
                if (dv.tasks > t0) != (m > thr):
                    raise Violation('threshold-not-honoured', '{} particles, threshold {}'.format(m, thr))
                check_log(cluster.LOG, 'L', mps, os, eps, m > thr)
    w.notes['maps'] += dv.maps
    w.notes['tasks'] += dv.tasks


def infer(sc, op, w, dv, thr):
    """The same history, serially and distributed."""
    spec = sc['config']['model']
    if spec['kind'] in ('tomo', 'poisoned'):
        return
    setup, twin = zoo.make(spec), zoo.make(spec)
    n = max(op['n'], 8)
    st = np.random.get_state()
    A = q.SMCUpdater(twin.model, n, twin.prior, resample_thresh=0.7)
    np.random.set_state(st)
    B = q.SMCUpdater(q.DirectViewParallelizedModel(setup.model, dv, serial_threshold=thr), n, setup.prior,
                     resample_thresh=0.7)
    eps = setup.eps((op['eps'] * 4)[:4])
    for k in range(4):
        o = zoo.choose_outcome(setup, twin.model, eps[k:k + 1], A.particle_locations, A.particle_weights, op['us'][k])
        if o is None:
            return
        st = np.random.get_state()
        A.update(o, eps[k:k + 1])
        if k == 1:
            ra = None if 'real' in setup.tags or 'vector' in setup.tags else A.bayes_risk(eps)
        end = np.random.get_state()
        np.random.set_state(st)
        B.update(o, eps[k:k + 1])
        if k == 1 and ra is not None:
            rb = B.bayes_risk(eps)
            if not np.allclose(ra, rb, rtol=1e-7, atol=1e-10):
                raise Violation('risk-differs', '{} {}'.format(ra, rb))
        if np.max(np.abs(A.particle_weights - B.particle_weights)) > 1e-9 or \
                not np.allclose(A.particle_locations, B.particle_locations, rtol=1e-9, atol=1e-12):
            raise Violation('inference-differs', 'update {}'.format(k))
        if A.resample_count != B.resample_count or not np.allclose(
                A.log_total_likelihood, B.log_total_likelihood, rtol=1e-9, atol=1e-12):
            raise Violation('inference-records-differ', 'update {}'.format(k))
        np.random.set_state(end)
    w.log(B.particle_weights)
