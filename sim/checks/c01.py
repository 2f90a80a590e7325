"""C01: every accepted observation is applied as exactly one Bayes update."""
import random

import numpy as np

from .. import shadow, zoo
from ..world import Abandon, Violation

LEVEL = 'exploration'
RULE = ('A run is a random model, prior, updater configuration and a history of single and batched updates, '
        'queries, forced resampling and resets, compared step by step with a reference filter.')
REAL = ['qinfer.smc.SMCUpdater', 'qinfer.resamplers.LiuWestResampler', 'all models of the zoo (qinfer.test_models, '
        'derived_models, rb, tomography)', 'qinfer.distributions']
STUB = ['random source (seeded, owned by the simulator)', 'uninitialised memory', 'clock']
STATES = 'hash of (model kind, number of updates, resamples, log2 of effective sample size)'
RUNS = dict(quick=6000, thorough=150000)
CHUNK = 16


def gen_ops(rng, setup, n, allow=('upd', 'batch', 'resample', 'reset', 'query')):
    ops = []
    while len(ops) < n:
        x = rng.random()
        if x < .6:
            ops.append(dict(op='upd', u=round(rng.random(), 6), ep=setup.gen(rng),
                            chk=rng.random() < .7, rare=rng.random() < .1))
        elif x < .75 and 'batch' in allow:
            k = rng.randrange(1, 9)
            ops.append(dict(op='batch', us=[round(rng.random(), 6) for _ in range(k)],
                            eps=[setup.gen(rng) for _ in range(k)], iv=rng.choice([1, 2, 3, 5, 7])))
        elif x < .82 and 'resample' in allow:
            ops.append(dict(op='resample'))
        elif x < .88 and 'reset' in allow:
            ops.append(dict(op='reset', how=rng.choice(['plain', 'n', 'params', 'keepw']), v=rng.randrange(1000)))
        elif 'query' in allow:
            ops.append(dict(op='query', kind=rng.randrange(8), ep=setup.gen(rng), u=round(rng.random(), 6)))
    return ops


def generate(rng, i, tier):
    specs = zoo.STATIC + zoo.DRIFTING
    spec = specs[i % len(specs)]
    cfg = shadow.gen_config(rng, [spec])
    if spec['kind'] in ('multinomial', 'tomo'):
        cfg['n'] = min(cfg['n'], 50)
    setup = zoo.make(spec)
    n = rng.randrange(3, 25 if tier == 'quick' else 40)
    ops = gen_ops(rng, setup, n)
    if rng.random() < .01 and cfg['n'] <= 50:
        ops.insert(rng.randrange(len(ops) + 1), dict(op='long', eps=[setup.gen(rng) for _ in range(7)], seed=rng.randrange(10 ** 6),
                                                     n=rng.choice([130, 300, 1300, 2000])))
    return dict(config=cfg, ops=ops, faults=[],
                extreme=0.02 if rng.random() < .3 else 0.0)


def apply_batch_choice(sh, setup, op):
    """Outcomes for a batch must be chosen before it: take them from the current particles."""
    eps = setup.eps(op['eps'])
    outs = []
    wt = sh.w
    for k in range(len(eps)):
        o = zoo.choose_outcome(setup, sh.twin.model, eps[k:k + 1], sh.x, wt, op['us'][k])
        L = sh.twin.model.likelihood(zoo.as_outcomes(o), sh.x, eps[k:k + 1])[0, :, 0]
        wt = wt * L
        if wt.sum() <= 1e-30:
            return None, None
        wt = wt / wt.sum()
        outs.append(o)
    dt = np.asarray(outs[0]).dtype
    arr = np.array(outs, dtype=dt)
    return arr, eps


def run_query(u, setup, sh, op, follow=False):
    ep = setup.eps([op['ep']])
    k = op['kind']
    if k == 0:
        u.est_mean()
        u.est_covariance_mtx()
    elif k == 1:
        o = sh.pick(op, ep)
        if o is not None:
            u.hypothetical_update(zoo.as_outcomes(o), ep)
            if follow and op['u'] % .1 < .05:
                # what was asked about happens
                u.update(o, ep)
                sh.bayes(o, ep)
                sh.maybe_resample()
    elif k == 2 and 'finite' in setup.tags and 'vector' not in setup.tags:
        u.bayes_risk(ep)
    elif k == 3 and 'finite' in setup.tags and 'vector' not in setup.tags:
        u.expected_information_gain(ep)
    elif k == 4:
        u.sample(3)
    elif k == 5:
        u.est_credible_region(level=0.7)
    elif k == 6:
        u.est_entropy()
    elif k == 7:
        u.est_meanfn(lambda x: x ** 2)


def scribble(*arrays):
    for a in arrays:
        a.view(np.uint8)[...] ^= 0x15


def drive(sc, w, after=None, before=None):
    u, sh, setup, probe = shadow.build(sc, w)
    if before:
        before(u, sh, setup)
    w.extreme_p = sc.get('extreme', 0.0)
    w.log('start', u.particle_locations)
    sh.check('initial')
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({})'.format(k, op['op'])
        if op['op'] == 'upd':
            ep = setup.eps([op['ep']])
            o = sh.pick(op, ep)
            if o is None:
                continue
            if op['u'] % .01 < .003:
                # buffers of the caller, used for something else afterwards
                mine, ours = np.array(zoo.as_outcomes(o)), ep.copy()
                u.update(mine, ours, check_for_resample=op['chk'])
                scribble(mine, ours)
            else:
                u.update(o, ep, check_for_resample=op['chk'])
            sh.bayes(o, ep)
            if op['chk']:
                sh.maybe_resample()
        elif op['op'] == 'batch':
            arr, eps = apply_batch_choice(sh, setup, op)
            if arr is None:
                continue
            iv = op['iv']
            # a resampling inside the batch may leave later data impossible;
            # the reference is consulted element by element
            failed = None
            try:
                mine, ours = arr.copy(), eps.copy()
                u.batch_update(mine, ours, resample_interval=iv)
                scribble(mine, ours)
            except RuntimeError as e:
                failed = e
            for j in range(len(arr)):
                if failed is not None and not probe.events:
                    if float(np.sum(sh.w * sh.L(arr[j], eps[j:j + 1]))) < 1e-9:
                        raise Abandon('a datum of a batch became impossible')
                    raise failed
                sh.bayes(arr[j], eps[j:j + 1])
                if (j + 1) % iv == 0:
                    sh.maybe_resample()
        elif op['op'] == 'long':
            r = random.Random(op['seed'])
            eps = [setup.eps([e]) for e in op['eps']]
            for _ in range(op['n']):
                ep = r.choice(eps)
                o = sh.pick(dict(u=r.random()), ep)
                if o is None:
                    continue
                u.update(o, ep)
                sh.bayes(o, ep)
                sh.maybe_resample()
        elif op['op'] == 'resample':
            u.resample()
            sh.resample(forced=True)
        elif op['op'] == 'reset':
            do_reset(u, sh, setup, op)
        elif op['op'] == 'query':
            run_query(u, setup, sh, op, follow=True)
            if op['u'] < .3:
                # what the caller was given is the caller's
                rec = u.data_record
                rec.append('not data') if op['u'] < .15 else rec.clear()
        sh.check(what)
        w.log(op['op'], u.particle_weights, u.particle_locations)
        w.state(sc['config']['model']['kind'], sh.n_updates, sh.n_resamples,
                int(np.log2(max(1.0, shadow.ess_of(sh.w)))))
        if after:
            after(u, sh, setup, op)
    w.notes['updates'] += sh.n_updates
    w.notes['resamples'] += sh.n_resamples
    return u, sh


def do_reset(u, sh, setup, op):
    how = op['how']
    n0 = u.n_particles
    x0, w0 = np.array(u.particle_locations), np.array(u.particle_weights)
    if how == 'n':
        n1 = 8 + op['v'] % 60
        u.reset(n_particles=n1)
    elif (how == 'params' and x0.shape[1] > 1
          and isinstance(setup.prior, (zoo.BoxPrior, zoo.GridPrior))
          and setup.model.are_models_valid(x0).all()):
        j = op['v'] % x0.shape[1]
        n1 = n0
        u.reset(only_params=np.s_[j:j + 1])
        x1 = x0.copy()
        fresh = setup.prior.handed[-1] if isinstance(setup.prior, zoo.BoxPrior) else setup.prior.sample(n0)
        x1[:, j] = fresh[:, j]
        if sh.canon:
            x1 = setup.model.canonicalize(x1)
        if not shadow.close(u.particle_locations, x1):
            raise Violation('reset-of-wrong-params', '{}: not the fresh values of parameter {} alone'.format(op, j))
        if not np.all(setup.model.are_models_valid(x1)):
            raise Abandon('old and new parameters do not go together')
    elif how == 'keepw':
        n1 = n0
        u.reset(reset_weights=False)
        if not np.array_equal(u.particle_weights, w0):
            raise Violation('reset-changed-weights', str(op))
    else:
        n1 = n0
        u.reset()
    if how != 'keepw' and not np.array_equal(u.particle_weights, np.ones(n1) / n1):
        raise Violation('reset-weights-not-uniform', str(op))
    if u.particle_locations.shape != (n1, x0.shape[1]):
        raise Violation('reset-shape', str(u.particle_locations.shape))
    if how != 'params' and isinstance(setup.prior, zoo.BoxPrior) and not sh.canon:
        lo, hi = zoo._box(setup.prior).T
        x = np.array(u.particle_locations)
        if np.any(x < lo - 1e-12) or np.any(x > hi + 1e-12):
            raise Violation('reset-outside-prior', str(op))
    sh.sync()


def execute(sc, w):
    drive(sc, w)
