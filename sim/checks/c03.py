"""C03: a failed update leaves the posterior as it was, and can be retried."""
import warnings

import numpy as np
import qinfer as q

from .. import cluster, shadow, zoo
from .. import world as W
from ..world import Violation
from . import c01

LEVEL = 'exploration'
RULE = ('A run drives two identically seeded updaters through one history in lock step; the second suffers injected '
        'failures of its model, resampler or cluster and retries.  After every failure the state before the call, '
        'and after every retry the never-failing updater, must be matched bit for bit.')
REAL = ['qinfer.smc.SMCUpdater', 'qinfer.resamplers.LiuWestResampler', 'qinfer.parallel.DirectViewParallelizedModel',
        'models of the zoo', 'ipyparallel.serialize']
STUB = ['failures of model methods and resampler (raised by instrumentation)', 'ipyparallel cluster', 'random source']
STATES = 'hash of (model kind, failing method, moment, exception, phase reached, retries)'
RUNS = dict(quick=4000, thorough=120000)
CHUNK = 8

METHODS = ['likelihood', 'likelihood', 'update_timestep', 'update_timestep', 'resampler', 'resampler',
           'are_models_valid', 'canonicalize', 'clear_cache']
RESET = ['prior', 'prior', 'canonicalize', 'canonicalize', 'are_models_valid']
KINDS = ['error', 'error', 'error', 'interrupt', 'memory', 'float', 'value']
CLUSTER_KINDS = ['error', 'crash', 'crash-after', 'lost']
SPECS = zoo.STATIC + zoo.DRIFTING


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    cfg = shadow.gen_config(rng, [spec])
    if spec['kind'] in ('multinomial', 'tomo'):
        cfg['n'] = min(cfg['n'], 50)
    if rng.random() < .5:
        cfg['thresh'] = rng.choice([0.8, 0.95, 1.0])
    # ipyparallel cannot serialise arrays of zero-size records
    par = rng.random() < .2 and spec['kind'] != 'coin'
    if par:
        cfg['engines'] = rng.randrange(2, 7)
    if rng.random() < .15:
        cfg['kw'] = dict(track_resampling_divergence=True)
    imp = spec['kind'] == 'sim' and rng.random() < .5
    if imp:
        cfg['kw'] = dict(zero_weight_policy=rng.choice(['reset', 'reset', 'skip']))
    setup = zoo.make(spec)
    ops = c01.gen_ops(rng, setup, rng.randrange(2, 14), allow=('upd', 'resample', 'query', 'batch', 'reset'))
    for op in ops:
        if op['op'] == 'upd' and imp and rng.random() < .3:
            # impossible data: the policy starts afresh from the prior, or skips it
            op.update(imp=True, ep=[rng.randrange(6), -1.0])
        if op['op'] == 'batch':
            op['op'] = 'upd'
            op.update(ep=op['eps'][0], u=op['us'][0], chk=True)
            op['batched'] = True
            del op['eps'], op['us']
        if op['op'] == 'reset':
            op['how'] = rng.choice(['plain', 'plain', 'n', 'params', 'keepw'])
        if op['op'] in ('upd', 'resample', 'reset') and rng.random() < .6:
            fs = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if par and rng.random() < .5:
                    fs.append(['cluster', rng.randrange(6), rng.choice(CLUSTER_KINDS)])
                else:
                    f = [rng.choice(RESET if op['op'] == 'reset' or (
                            op.get('imp') and rng.random() < .7) else METHODS), rng.choice([0, 0, 0, 1, 2]), rng.choice(['before', 'after']),
                         rng.choice(KINDS)]
                    if f[0] == 'clear_cache' and f[3] == 'interrupt':
                        f[3] = 'error'      # an interrupt there comes after the resampling is complete
                    fs.append(f)
            op['faults'] = fs
    return dict(config=cfg, ops=ops, faults=[])


def execute(sc, w):
    eng = sc['config'].get('engines')
    views = []

    def wrap(m):
        if not eng:
            return m
        dv = cluster.SimDirectView(w, eng)
        views.append(dv)
        return q.DirectViewParallelizedModel(m, dv, serial_threshold=3)
    warnings.simplefilter('ignore')
    st = np.random.get_state()
    A, shA, setup, prA = shadow.build(sc, w, wrap)
    np.random.set_state(st)
    B, shB, setupB, prB = shadow.build(sc, w, wrap)
    A.prior, B.prior = zoo.ProbePrior(setup.prior, prA), zoo.ProbePrior(setupB.prior, prB)
    dv = views[1] if eng else None
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({})'.format(k, op['op'])
        prA.rng_at.clear()
        if op['op'] == 'query':
            c01.run_query(A, setup, shA, op)
            continue
        ep = o = None
        if op['op'] == 'upd':
            ep = setup.eps([op['ep']])
            rejected = bool(op.get('imp'))
            o = 0 if rejected else shA.pick(op, ep)
            if o is None or (rejected and float(np.sum(shA.w * shA.L(o, ep))) > 1e-17):
                continue

        def call(u):
            if op['op'] == 'upd':
                if op.get('batched'):
                    u.batch_update(np.array([o]), ep, resample_interval=1)
                else:
                    u.update(o, ep, check_for_resample=op['chk'])
            elif op['op'] == 'resample':
                u.resample()
            elif op['how'] == 'n':
                u.reset(n_particles=8 + op['v'] % 60)
            elif op['how'] == 'params' and isinstance(setup.prior, (zoo.BoxPrior, zoo.GridPrior)):
                j = op['v'] % u.particle_locations.shape[1]
                u.reset(only_params=np.s_[j:j + 1])
            elif op['how'] == 'keepw':
                u.reset(reset_weights=False)
            else:
                u.reset()
        st = np.random.get_state()
        call(A)
        end = np.random.get_state()
        at_resample = prA.rng_at.get('resampler')
        if op['op'] == 'upd' and rejected:
            shA.data.append(o)
            shA.sync()
        elif op['op'] == 'upd':
            shA.bayes(o, ep)
            if op['chk'] or op.get('batched'):
                shA.maybe_resample()
        elif op['op'] == 'resample':
            shA.resample()
        else:
            shA.sync()
        shA.check(what)
        # -- the same for B, with failures
        np.random.set_state(st)
        done = False
        applied = False
        for f in op.get('faults', []) + [None]:
            if f is None:
                prB.disarm()
                if dv:
                    dv.plan[:] = []
            elif f[0] == 'cluster':
                if not dv:
                    continue
                dv.plan[:] = [dict(kind=f[2], map=dv.maps, who=f[1])]
            else:
                prB.arm(f[0], f[1], f[2], f[3])
            before = shadow.snapshot(B)
            prB.raised = None
            prB.events[:] = []
            try:
                if applied:
                    np.random.set_state(at_resample)
                    B.resample()
                else:
                    np.random.set_state(st)
                    call(B)
                done = True
            except Violation:
                raise
            except (W.SimFault, W.SimInterrupt, MemoryError, FloatingPointError, ValueError,
                    cluster.ipe.IPythonError, TimeoutError) as e:
                if isinstance(e, (cluster.ipe.IPythonError, TimeoutError)):
                    if f is None or f[0] != 'cluster':
                        raise
                    while dv and len(dv.alive) < 2:
                        dv.join()
                elif e is not prB.raised:
                    if prB.raised is None:
                        raise
                    raise Violation('exception-changed', '{}: {!r} reached the caller instead of {!r}'.format(
                        what, e, prB.raised))
                now = shadow.snapshot(B)
                moved = any(x[0] == 'T' for x in prB.events) and f[0] not in ('likelihood', 'update_timestep', 'cluster')
                if op['op'] == 'upd' and not applied and moved and not rejected:
                    # The update proper was over: it must have been applied exactly once.
                    applied = True
                    phase = 'resampling'
                    shB.bayes(o, ep)
                    prB.events[:] = []
                    shB.check(what + ' after failed resampling')
                    if now['just']:
                        raise Violation('just-resampled-after-failure', what)
                else:
                    phase = 'update' if not applied else 'resampling retry'
                    d = shadow.same_snapshot(before, now)
                    if d:
                        raise Violation('failed-{}-changed-{}'.format(op['op'], d), '{} failing in {}: {} is {} was {}'.format(
                            what, f, d, now[d], before[d]))
                w.state(sc['config']['model']['kind'], f[0], f[1:], phase)
                w.notes['failed in ' + phase] += 1
            if done:
                if prB.raised is not None and f[0] != 'clear_cache':
                    raise Violation('exception-swallowed', '{}: failure of {} did not reach the caller'.format(what, f))
                break
        prB.disarm()
        if dv:
            dv.plan[:] = []
            while len(dv.alive) < eng:
                dv.join()
        prB.events[:] = []
        d = shadow.same_snapshot(shadow.snapshot(A), shadow.snapshot(B))
        if d:
            raise Violation('retry-differs-in-' + d, '{}: after {} the {} differ from the run that never failed'.format(
                what, op.get('faults'), d))
        if op['op'] in ('upd', 'resample') and A.resampling_divergences is not None:
            a, b = len(A.resampling_divergences), len(B.resampling_divergences)
            if a != b:
                raise Violation('divergence-record', '{} {} {}'.format(what, a, b))
        np.random.set_state(end)
        shB.w, shB.x = shA.w.copy(), shA.x.copy()
        shB.data, shB.norm = list(shA.data), list(shA.norm)
        shB.min_ess, shB.count = shA.min_ess, shA.count
        w.log(what, B.particle_weights, B.particle_locations)
    w.notes['updates'] += shA.n_updates
