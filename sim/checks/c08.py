"""C08: engine failures surface as errors, never as wrong answers; models restart."""
import pickle
import warnings

import numpy as np
import qinfer as q

from .. import cluster, shadow, zoo
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run sends evaluations, simulations and housekeeping to a simulated cluster whose engines crash, fail tasks, '
        'lose results, join and leave at seeded moments, and restarts models from pickles; every answer must be the '
        'serial one or an error, and the model must work again afterwards.')
REAL = ['qinfer.parallel.DirectViewParallelizedModel', 'qinfer.smc.SMCUpdater', 'models of the zoo', 'pickle',
        'ipyparallel.serialize', 'ipyparallel.error']
STUB = ['ipyparallel DirectView, client, engines and network', 'random source']
STATES = 'completion orders and hash of (operation, fault kinds hit, engines left, outcome of the call)'
RUNS = dict(quick=5000, thorough=120000)
CHUNK = 8
FAULTS = ['error', 'crash', 'crash-after', 'lost']
OPS = ['L', 'L', 'L', 'L', 'sim', 'sim', 'cache', 'pickle', 'pickle', 'nested', 'infer', 'kill', 'revive']
SPECS = [s for s in zoo.STATIC + zoo.DRIFTING if s['kind'] != 'coin']


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    ne = rng.choice([1, 2, 2, 3, 4, 5, 8])
    thr = rng.choice([None, 0, 1, 3, 10])
    setup = zoo.make(spec)
    ops = []
    for _ in range(rng.randrange(3, 10)):
        op = dict(op=rng.choice(OPS), n=rng.choice([1, 3, 10, 11, 25, 60, ne, ne + 1]),
                  eps=[setup.gen(rng) for _ in range(rng.choice([1, 2, 4]))], rep=rng.choice([1, 2]),
                  split=rng.random() < .7, u=round(rng.random(), 6), us=[round(rng.random(), 6) for _ in range(5)])
        if op['op'] in ('L', 'sim', 'infer') and rng.random() < .65:
            op['fault'] = [dict(kind=rng.choice(FAULTS + ['blank'] * (op['op'] == 'L')), who=rng.randrange(8))
                           for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if op['op'] in ('L', 'sim') and rng.random() < .35:
            op['churn'] = [dict(kind=rng.choice(['join', 'leave', 'leave']), at=rng.randrange(0, 3),
                                who=rng.randrange(8)) for _ in range(rng.choice([1, 1, 2]))]
        if op['op'] == 'cache':
            op['hk'] = rng.choice([None, 'results', 'purge_results', 'purge_everything'])
        ops.append(op)
    return dict(config=dict(model=spec, engines=ne, thr=thr, purge=rng.random() < .5), ops=ops, faults=[])


def plan(dv, op):
    dv.plan = [dict(p, map=dv.maps) for p in op.get('fault', [])]
    dv.plan += [dict(p, at=dv.events + p['at']) for p in op.get('churn', [])]


def attempt(fn):
    """Returns (value, None) or (None, exception)."""
    try:
        return fn(), None
    except Violation:
        raise
    except Exception as e:
        return None, e


def check_L(L, ref, what):
    if np.shape(L) != ref.shape:
        raise Violation('wrong-shape-instead-of-error', '{}: {} expected {}'.format(what, np.shape(L), ref.shape))
    if not shadow.close(L, ref, rt=1e-12):
        raise Violation('wrong-answer-instead-of-error', '{}: off by {}'.format(what, np.abs(L - ref).max()))


def outcomes_for(setup, twin, op, eps):
    return np.array(op['us']) * 2 - .5 if 'real' in setup.tags else zoo.outcome_values(twin.model, eps[:1])


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    setup, twin = zoo.make(c['model']), zoo.make(c['model'])
    dv = cluster.SimDirectView(w, c['engines'])
    kw = {} if c['thr'] is None else dict(serial_threshold=c['thr'])
    thr = 10 * c['engines'] if c['thr'] is None else c['thr']
    model = q.DirectViewParallelizedModel(setup.model, dv, purge_client=c['purge'], **kw)
    for k, op in enumerate(sc['ops']):
        kind, n = op['op'], op['n']
        eps = setup.eps(op['eps'])
        what = 'op {} ({})'.format(k, kind)
        f0 = sum(w.faults.values())
        mps = np.array(setup.prior.sample(n))
        err = None
        if kind == 'L':
            os = outcomes_for(setup, twin, op, eps)
            ref = twin.model.likelihood(os, mps, eps)
            alive = len(dv.alive)
            plan(dv, op)
            L, err = attempt(lambda: model.likelihood(os, mps, eps))
            if err is None:
                check_L(L, ref, what)
            elif sum(w.faults.values()) == f0 and alive:
                raise err
            if n <= thr and err is not None:
                raise Violation('serial-evaluation-failed', '{}: {!r}'.format(what, err))
            heal(dv)
            L, err2 = attempt(lambda: model.likelihood(os, mps, eps))
            if err2 is not None:
                raise Violation('no-recovery', '{}: {!r} on {} healthy engines'.format(what, err2, len(dv.alive)))
            check_L(L, ref, what + ' retried')
            w.log(L, err is None)
        elif kind == 'sim':
            if not setup.model.is_n_outcomes_constant:
                eps = np.repeat(eps[:1], len(eps), axis=0)
            ref = twin.model.simulate_experiment(mps, eps, repeat=op['rep'])
            alive = len(dv.alive)
            plan(dv, op)
            d, err = attempt(lambda: model.simulate_experiment(mps, eps, repeat=op['rep'],
                                                               split_by_modelparams=op['split']))
            if err is None:
                if np.size(d) != np.size(ref) or (np.size(ref) > 1 and np.shape(d) != np.shape(ref)):
                    raise Violation('wrong-shape-instead-of-error', '{}: {} expected {}'.format(
                        what, np.shape(d), np.shape(ref)))
            elif sum(w.faults.values()) == f0 and alive:
                raise err
            heal(dv)
            d, err2 = attempt(lambda: model.simulate_experiment(mps, eps, repeat=op['rep'],
                                                                split_by_modelparams=op['split']))
            if err2 is not None:
                raise Violation('no-recovery', '{}: {!r}'.format(what, err2))
        elif kind == 'cache':
            dv.housekeeping_fault = op['hk']
            _, err = attempt(model.clear_cache)
            dv.housekeeping_fault = None
            if err is not None:
                raise Violation('clear-cache-raised', '{}: {!r}'.format(what, err))
        elif kind == 'pickle':
            check_restart(model, setup, twin, op, eps, mps, thr, c, what, dv)
        elif kind == 'nested':
            nested(op, eps, mps, setup, dv, thr, w, what)
        elif kind == 'infer':
            infer(c, op, dv, thr, w, what)
        elif kind == 'kill':
            if op['u'] < .3:
                for e in list(dv.alive):
                    e.alive = False
                w.fault('all engines gone')
                os = outcomes_for(setup, twin, op, eps)
                L, err = attempt(lambda: model.likelihood(os, mps, eps))
                if err is None:
                    check_L(L, twin.model.likelihood(os, mps, eps), what)
                elif n <= thr:
                    raise Violation('serial-evaluation-failed', '{}: {!r}'.format(what, err))
                _, err = attempt(model.clear_cache)
                if err is not None:
                    raise Violation('clear-cache-raised', '{}: {!r}'.format(what, err))
            elif len(dv.alive) > 1:
                dv.leave(int(op['u'] * 8))
        elif kind == 'revive':
            dv.join()
        dv.plan = []
        heal(dv)
        w.state(kind, str(sorted(p['kind'] for p in op.get('fault', []) + op.get('churn', []))), len(dv.alive),
                type(err).__name__)


def heal(dv):
    dv.plan = []
    if not dv.alive:
        dv.join()


def check_restart(model, setup, twin, op, eps, mps, thr, c, what, dv):
    before = dict(model.__dict__)
    blob = pickle.dumps(model)
    if set(model.__dict__) != set(before) or any(model.__dict__[a] is not before[a] for a in before):
        raise Violation('pickling-disturbed-model', '{}: {}'.format(what, [
            a for a in before if model.__dict__.get(a) is not before[a]]))
    m2 = pickle.loads(blob)
    if op['u'] < .3:
        m2 = pickle.loads(pickle.dumps(m2))         # twice
    if m2.call_count != model.call_count or m2.sim_count != model.sim_count:
        raise Violation('counters-lost', what)
    if m2.n_modelparams != model.n_modelparams or m2.expparams_dtype != model.expparams_dtype:
        raise Violation('settings-lost', what)
    if m2.n_engines != 0:
        raise Violation('restored-engine-count', str(m2.n_engines))
    os = outcomes_for(setup, twin, op, eps)
    for m in sorted({1, thr, thr + 1, len(mps)}):
        if m < 1 or m > 300:
            continue
        x = np.array(setup.prior.sample(m))
        L, err = attempt(lambda: m2.likelihood(os, x, eps))
        if m <= thr:
            if err is not None:
                raise Violation('restored-cannot-evaluate', '{}: {} particles, threshold {}: {!r}'.format(
                    what, m, thr, err))
            check_L(L, twin.model.likelihood(os, x, eps), what)
        elif err is None:
            raise Violation('restored-exceeds-threshold', '{}: {} particles'.format(what, m))
        elif not isinstance(err, RuntimeError):
            raise Violation('restored-unclear-error', '{}: {!r}'.format(what, err))
        if not setup.model.is_n_outcomes_constant:
            e1 = eps[:1]
        else:
            e1 = eps
        for split in (True, False):
            d, err = attempt(lambda: m2.simulate_experiment(x, e1, repeat=1, split_by_modelparams=split))
            if err is not None and not isinstance(err, RuntimeError):
                raise Violation('restored-unclear-error', '{}: {!r}'.format(what, err))
            if err is None and np.size(d) != m * len(e1):
                raise Violation('restored-wrong-data', what)
            if err is None and (m if split else len(e1)) > thr:
                raise Violation('restored-exceeds-threshold', '{}: simulating {} by {}'.format(what, m, len(e1)))
    _, err = attempt(m2.clear_cache)
    if err is not None:
        raise Violation('clear-cache-raised', '{} (restored): {!r}'.format(what, err))
    # A restored model can be given a new cluster, and keeps its other settings.
    # (There is no public way to do so: whatever attribute used to hold the view.)
    name, = [k for k, v in vars(model).items() if v is dv]
    setattr(m2, name, dv)
    m2_thr = [m for m in (thr, thr + 1) if 1 <= m <= 300]
    for m in m2_thr:
        x = np.array(setup.prior.sample(m))
        t0 = dv.tasks
        check_L(m2.likelihood(os, x, eps), twin.model.likelihood(os, x, eps), what)
        if (dv.tasks > t0) != (m > thr):
            raise Violation('restored-threshold', '{}: {} particles, threshold {}'.format(what, m, thr))
    before = dv.purged
    m2.clear_cache()
    if (dv.purged > before) != bool(c['purge']):
        raise Violation('restored-purge-client', what)


def nested(op, eps, mps, setup, dv, thr, w, what):
    """A parallelised model sent to engines as part of a larger one evaluates there on its own."""
    inner = q.DirectViewParallelizedModel(zoo.make({'kind': 'precession'}).model, dv,
                                          serial_threshold=max(thr, 60))
    outer = q.DirectViewParallelizedModel(q.BinomialModel(inner), dv, serial_threshold=2)
    x = np.linspace(0, 1, 7 + op['n'] % 20)[:, None]
    e = np.zeros((2,), dtype=outer.expparams_dtype)
    e['x'], e['n_meas'] = [1.5, 7.25], [3, 5]
    os = np.arange(4)
    L = outer.likelihood(os, x, e)
    ref = q.BinomialModel(q.SimplePrecessionModel()).likelihood(os, x, e)
    check_L(L, ref, what)
    w.log(L)


def infer(c, op, dv, thr, w, what):
    """Inference on a failing cluster: retrying failed updates gives the serial posterior."""
    setup, twin = zoo.make(c['model']), zoo.make(c['model'])
    if 'tomo' in setup.tags:
        return
    n = max(op['n'], 8)
    st = np.random.get_state()
    A = q.SMCUpdater(twin.model, n, twin.prior, resample_thresh=0.7)
    np.random.set_state(st)
    B = q.SMCUpdater(q.DirectViewParallelizedModel(setup.model, dv, serial_threshold=min(thr, 5)), n, setup.prior,
                     resample_thresh=0.7)
    eps = setup.eps((op['eps'] * 4)[:4])
    for k in range(4):
        o = zoo.choose_outcome(setup, twin.model, eps[k:k + 1], A.particle_locations, A.particle_weights, op['us'][k])
        if o is None:
            return
        st = np.random.get_state()
        A.update(o, eps[k:k + 1])
        end = np.random.get_state()
        if k % 2 == 0:
            plan(dv, op)
        for _ in range(6):
            np.random.set_state(st)
            before = shadow.snapshot(B)
            _, err = attempt(lambda: B.update(o, eps[k:k + 1]))
            if err is None:
                break
            d = shadow.same_snapshot(before, shadow.snapshot(B))
            if d:
                raise Violation('failed-update-changed-' + d, what)
            heal(dv)
        else:
            raise Violation('no-recovery', '{}: {!r}'.format(what, err))
        if np.max(np.abs(A.particle_weights - B.particle_weights)) > 1e-9 or \
                not np.allclose(A.particle_locations, B.particle_locations, rtol=1e-9, atol=1e-12):
            raise Violation('inference-differs', '{} update {}'.format(what, k))
        np.random.set_state(end)
    w.log(B.particle_weights)
