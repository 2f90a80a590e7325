"""C04: impossible data is handled exactly as the chosen zero-weight policy says."""
import warnings

import numpy as np
from qinfer import ApproximationWarning

from .. import shadow, zoo
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run feeds an updater a history in which some data are impossible (or have a probability below or well '
        'above the zero threshold) for all particles of non-zero weight, under one of the five policies; a '
        'reference filter predicts posterior, records and warnings.')
REAL = ['qinfer.smc.SMCUpdater', 'qinfer.resamplers.LiuWestResampler', 'qinfer.distributions']
STUB = ['model with exactly impossible outcomes', 'random source', 'uninitialised memory']
STATES = 'hash of (policy, kind of impossibility, batched, updates before, resamples before)'
RUNS = dict(quick=15000, thorough=400000)
CHUNK = 16
POLICIES = ['error', 'skip', 'reset', 'warn', 'ignore']


def generate(rng, i, tier):
    pol = POLICIES[i % 5]
    kw = dict(n_out=rng.choice([2, 3, 4]), varying=rng.random() < .3, drift=rng.choice([0, 0, 0.02, -0.04]),
              canon=rng.random() < .3, tiny=rng.choice([0, 0, 1e-20, 1e-25, 1e-10, 1e-8]))
    cfg = shadow.gen_config(rng, [dict(kind='sim', kw=kw)])
    cfg['kw'] = dict(zero_weight_policy=pol)
    if rng.random() < .3:
        cfg['kw']['zero_weight_thresh'] = rng.choice([1e-14, 1e-6, 0.5, 0, 0, 1e-30])
    ops = []
    for _ in range(rng.randrange(2, 14)):
        x = rng.random()
        k, u, chk = rng.randrange(6), round(rng.random(), 6), rng.random() < .6
        if x < .5:
            ops.append(dict(op='upd', ep=[k, round(rng.uniform(.1, 1.5), 4)], u=u, chk=chk))
        elif x < .62:
            ops.append(dict(op='hard', ep=[k, rng.choice([2.0, 3.0])], u=u, chk=chk))
        elif x < .88:
            ops.append(dict(op='imp', ep=[k, -rng.choice([1.0, 1.3])], chk=False, batched=rng.random() < .25))
        elif x < .94:
            ops.append(dict(op='hard0', ep=[k, rng.choice([2.0, 3.0])], chk=False, batched=rng.random() < .25))
        elif x < .97 and pol in ('skip', 'error', 'reset'):
            ops.append(dict(op='batch', interval=rng.choice([1, 2, 3, 5]), items=[
                [rng.random() < .35, rng.randrange(6), round(rng.uniform(.1, 1.5), 4), round(rng.random(), 6)]
                for _ in range(zoo.big(rng, rng.randrange(2, 9), .02, (30, 70)))]))
        else:
            ops.append(dict(op='resample'))
    return dict(config=cfg, ops=ops, faults=[], extreme=0.02 if rng.random() < .2 else 0.0)


def batch(op, u, sh, setup, prior, pol, what, w, n0, cfg):
    """A batch of which some data are impossible; False if what follows cannot be told."""
    raw = [setup.eps([[k, -t if imp else t]]) for imp, k, t, _ in op['items']]
    outcomes = [0 if imp else sh.pick(dict(u=x), e) for (imp, _, _, x), e in zip(op['items'], raw)]
    if any(o is None for o in outcomes) or cfg['kw'].get('zero_weight_thresh') is not None:
        return True
    handed, norms = len(prior.handed), len(sh.norm)
    raised = None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            u.batch_update(np.array(outcomes), np.concatenate(raw), resample_interval=op['interval'])
        except RuntimeError as e:
            raised = e
    resets, rejected, want = 0, 0, []
    for j, (o, e) in enumerate(zip(outcomes, raw)):
        total = float(np.sum(sh.w * sh.L(o, e)))
        if 1e-17 < total < 1e-11:
            return False
        if total <= 1e-17:
            w.fault('impossible datum in a batch')
            rejected += 1
            if pol == 'error':
                break
            if pol == 'reset':
                if len(prior.handed) <= handed + resets:
                    raise Violation('batch-reset-not-fresh', '{}: datum {}'.format(what, j))
                sh.x = np.array(prior.handed[handed + resets])
                if cfg['canonicalize']:
                    sh.x = sh.twin.model.canonicalize(sh.x)
                sh.w = np.ones(n0) / n0
                resets += 1
        else:
            sh.bayes(o, e)
            want.append(o)
        if (j + 1) % op['interval'] == 0:
            sh.maybe_resample()
    if (raised is not None) != (pol == 'error' and rejected > 0):
        raise Violation('batch-raised' if raised else 'batch-did-not-raise', '{}: {}'.format(what, raised))
    if pol == 'reset' and bool(resets) > any(issubclass(c.category, ApproximationWarning) for c in caught):
        raise Violation('batch-reset-without-warning', what)
    # Whether rejected data is recorded is left open, as are the records of a reset.
    data = list(u.data_record)
    if not len(sh.data) <= len(data) <= len(sh.data) + rejected:
        raise Violation('batch-data-record', '{}: {} data recorded, {} applied, {} rejected'.format(what, len(data), len(sh.data), rejected))
    sh.data = data
    if resets:
        sh.norm, sh.min_ess = [float(x) for x in np.ravel(u.normalization_record)], float(u.min_n_ess)
        if not norms + len(want) <= len(sh.norm) <= norms + len(want) + resets:
            raise Violation('batch-normalisation-record', what)
    sh.check(what)
    w.state('batch', pol, min(rejected, 3), min(len(want), 4), min(resets, 2))
    return True


def execute(sc, w):
    pol = sc['config']['kw']['zero_weight_policy']
    st = np.random.get_state()
    u, sh, setup, probe = shadow.build(sc, w)
    # The policy must not matter as long as nothing impossible happens.
    np.random.set_state(st)
    kw = dict(sc['config']['kw'])
    kw['zero_weight_policy'] = POLICIES[(POLICIES.index(pol) + 1 + sc['seed'] % 4) % 5]
    v = shadow.build(sc, w, kw=kw)[0]
    n0 = sc['config']['n']
    w.extreme_p = sc.get('extreme', 0.0)
    if w.extreme_p:
        v = None
    prior = setup.prior
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({}, policy {})'.format(k, op['op'], pol)
        if op['op'] == 'resample':
            st = np.random.get_state()
            u.resample()
            sh.resample()
            if v is not None:
                np.random.set_state(st)
                v.resample()
            sh.check(what)
            continue
        if op['op'] == 'batch':
            v = None
            if not batch(op, u, sh, setup, prior, pol, what, w, n0, sc['config']):
                return
            w.log('batch', u.particle_weights, u.particle_locations)
            continue
        ep = setup.eps([op['ep']])
        o = sh.pick(op, ep) if op['op'] in ('upd', 'hard') else 0
        if o is None:
            continue
        L = sh.L(o, ep)
        total = float(np.sum(sh.w * L))
        if op['op'] in ('imp', 'hard0') and 1e-17 < total < 1e-11:
            continue
        if op['op'] in ('upd', 'hard') and total < 1e-11:
            continue
        zero = total <= 1e-17
        thresh = sc['config']['kw'].get('zero_weight_thresh')
        if zero and thresh is not None and thresh < total / 2:
            # The caller wants such data to be applied, whatever the policy. (How their weights are scaled is left open.)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    u.update(o, ep, check_for_resample=False)
                except RuntimeError as e:
                    raise Violation('above-threshold-rejected', '{}: probability {}, threshold {}: {}'.format(what, total, thresh, e))
            want = sh.w * L[0, :, 0] / total if np.ndim(L) == 3 else sh.w * np.ravel(L) / total
            got = np.array(u.particle_weights)
            if got.shape != want.shape or not np.sum(got) > 0 or not np.allclose(got / np.sum(got), want, atol=1e-9):
                raise Violation('above-threshold-not-applied', '{}: probability {}, threshold {}'.format(what, total, thresh))
            if len(u.data_record) != len(sh.data) + 1:
                raise Violation('above-threshold-not-recorded', what)
            w.fault('datum just above the threshold')
            w.log(what, got)
            return
        before = shadow.snapshot(u)
        handed = len(prior.handed)
        probe.events[:] = []
        st = np.random.get_state()
        raised = None
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                if op.get('batched'):
                    u.batch_update(np.array([o]), ep, resample_interval=3)
                else:
                    u.update(o, ep, check_for_resample=op['chk'])
            except RuntimeError as e:
                raised = e
        approx = [c for c in caught if issubclass(c.category, ApproximationWarning)]
        if not zero:
            if raised is not None:
                raise Violation('possible-datum-raised', '{}: {} (probability {})'.format(what, raised, total))
            sh.bayes(o, ep)
            if op['chk']:
                sh.maybe_resample()
            elif approx:
                raise Violation('possible-datum-warned', '{}: {}'.format(what, approx[0].message))
            sh.check(what)
            if v is not None:
                np.random.set_state(st)
                if op.get('batched'):
                    v.batch_update(np.array([o]), ep, resample_interval=3)
                else:
                    v.update(o, ep, check_for_resample=op['chk'])
                d = shadow.same_snapshot(shadow.snapshot(u), shadow.snapshot(v))
                if d:
                    raise Violation('policy-influences-' + d, '{}: {} vs {}'.format(what, pol, kw['zero_weight_policy']))
            w.log(op['op'], u.particle_weights, u.particle_locations)
            continue
        # -- an impossible datum ------------------------------------------------
        v = None
        w.fault('impossible datum (probability {})'.format('zero' if total == 0 else 'below threshold'))
        w.state(pol, total == 0, bool(op.get('batched')), min(sh.n_updates, 6), min(sh.n_resamples, 3), op['op'])
        now = shadow.snapshot(u)
        moved = [e[0] for e in probe.events]
        if pol == 'error':
            if raised is None:
                raise Violation('error-did-not-raise', what)
        elif raised is not None:
            raise Violation('{}-raised'.format(pol), '{}: {}'.format(what, raised))
        if pol in ('error', 'skip'):
            d = shadow.same_snapshot(before, now, skip=('data', 'just'))
            if d:
                raise Violation('{}-changed-{}'.format(pol, d), what)
            if moved:
                raise Violation('{}-moved'.format(pol), '{}: {}'.format(what, moved))
            sh.data = list(u.data_record)          # whether rejected data is recorded is left open
            if sh.data[:len(before['data'])] != before['data'] or len(sh.data) > len(before['data']) + 1:
                raise Violation('rejected-data-record', what)
        elif pol == 'reset':
            if not approx:
                raise Violation('reset-without-warning', what)
            if len(prior.handed) <= handed:
                raise Violation('reset-not-fresh', what)
            exp = prior.handed[-1]
            if sc['config']['canonicalize']:
                exp = sh.twin.model.canonicalize(exp)
            if now['x'].shape != before['x'].shape or not np.array_equal(now['x'], exp):
                raise Violation('reset-not-a-prior-draw', what)
            if not np.array_equal(now['w'], np.ones(n0) / n0):
                raise Violation('reset-weights', '{}: {}'.format(what, now['w'][:4]))
            if np.array_equal(now['x'], before['x']):
                raise Violation('reset-kept-particles', what)
            if len(now['norm']) != len(before['norm']) and now['norm'][:-1].tobytes() != before['norm'].tobytes():
                raise Violation('reset-normalisation-record', what)
            sh.data = list(u.data_record)
            sh.norm = [float(x) for x in np.ravel(now['norm'])]
            sh.min_ess = now['min_ess']
            probe.events[:] = []
            sh.sync()
        else:
            if pol == 'warn' and not approx:
                raise Violation('warn-without-warning', what)
            if pol == 'ignore' and approx:
                raise Violation('ignore-warned', '{}: {}'.format(what, approx[0].message))
            if np.sum(np.abs(now['w'])) > 1e-15:
                raise Violation('{}-weights-not-zero'.format(pol), '{}: sum {}'.format(what, np.sum(now['w'])))
            if moved != ['T']:
                raise Violation('{}-not-applied'.format(pol), '{}: steps {}'.format(what, moved))
            if not np.array_equal(now['x'], probe.events[0][3][:, :, 0]):
                raise Violation('{}-locations'.format(pol), what)
            probe.events[:] = []
            u.reset()
            sh.data, sh.norm = list(u.data_record), [float(x) for x in np.ravel(u.normalization_record)]
            sh.min_ess = float(u.min_n_ess)
            w.notes['all-zero posteriors'] += 1
            sh.sync()
            w.log(op['op'], now['w'])
            # Total log-likelihood is minus infinity from here on.
            if sh.norm and sh.norm[-1] <= 0:
                return
        sh.check(what + ' (after)')
        w.log(op['op'], u.particle_weights, u.particle_locations)
    w.notes['updates'] += sh.n_updates
