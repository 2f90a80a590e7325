"""C21: mixed approximate inference evaluates each particle by exactly one model."""
import warnings

import numpy as np
import qinfer as q

from .. import shadow, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run drives a mixed approximate updater, both of whose models note which particles they are given, through a history of updates, '
        'hypothetical updates, failures, resampling and resets for one choice of ratio, threshold and minimum number; the assignment of '
        'particles to models is checked at every step and the posterior against a reference filter.')
REAL = ['qinfer.smc.MixedApproximateSMCUpdater', 'qinfer.smc.SMCUpdater', 'qinfer.resamplers', 'models of the zoo']
STUB = ['approximate model (a distorted copy of the good one)', 'model failures', 'random source', 'uninitialised memory']
STATES = 'hash of (ratio, threshold, minimum, operation, number evaluated well, updates so far)'
RUNS = dict(quick=8000, thorough=240000)
CHUNK = 8
NEEDS_OPS = False

SPECS = [s for s in zoo.STATIC + zoo.DRIFTING if s['kind'] not in ('gausshyper',)]


class Apx(q.DerivedModel):
    """Cheap but distorted."""
    def likelihood(self, outcomes, modelparams, expparams):
        super(Apx, self).likelihood(outcomes, modelparams, expparams)
        return distort(self.underlying_model.likelihood(outcomes, modelparams, expparams))


    def simulate_experiment(self, modelparams, expparams, repeat=1):
        return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)


def distort(L):
    return .55 * L + .03 + .2 * L ** 2


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    setup = zoo.make(spec)
    cfg = dict(model=spec, n=zoo.big(rng, rng.choice([1, 2, 3, 7, 20, 60, 150])), thresh=rng.choice([0.0, 0.0, .3, .5, .9]), lw=dict(a=rng.choice([.98, .9, .5])),
               ratio=rng.choice([0.0, .01, .1, .5, .5, .9, .99, 1.0, 1.0, round(rng.random(), 3)]), mthresh=rng.choice([1.0, 1.0, 0.0, .01, .05, .3, 2.0]),
               min_good=rng.choice([0, 0, 1, 2, 5, 20, 60, 150, 1000]), apx=rng.choice(['distorted'] * 3 + ['same', 'twin']), defaults=rng.random() < .1)
    if rng.random() < .05:
        cfg.update(n=rng.choice([1, 2, 8, 64, 256]), ratio=rng.choice([0.0, .1]))
        cfg['mthresh'] = 1.0 / cfg['n']
    if rng.random() < .3:
        cfg['prior'] = [list(map(float, np.round(p, 6))) for p in zoo.GridPrior(2).sample(cfg['n'])] if 'sim' in setup.tags else None
    ops = []
    for _ in range(rng.randrange(2, 14)):
        x = rng.random()
        op = dict(op='upd', ep=setup.gen(rng), u=round(rng.random(), 6), chk=rng.random() < .7, rare=rng.random() < .15)
        if x < .12:
            op.update(op='hyp', eps=[setup.gen(rng) for _ in range(rng.randrange(1, 4))], no=rng.choice([1, 2, 3]), ret=rng.randrange(4))
        elif x < .2:
            op.update(op='fail', where=rng.choice(['good', 'apx']), when=rng.choice(['before', 'after']))
        elif x < .26:
            op.update(op='resample')
        elif x < .3:
            op.update(op='reset', n=rng.choice([None, None, 1, 3, 8, cfg['n'] // 2 + 1, cfg['n'] * 2]))
        ops.append(op)
    return dict(config=cfg, ops=ops, faults=[])


class Note(object):
    def __init__(self, name):
        self.name, self.calls, self.boom = name, [], None


def watch(model, note, w):
    cls = type(model)

    class Watched(cls):
        def likelihood(self, outcomes, modelparams, expparams):
            if note.boom == 'before':
                note.boom = None
                w.fault('{} model fails'.format(note.name))
                raise W.SimFault('injected')
            if modelparams.shape[0] == 0:
                raise Violation('called-without-particles', '{} model'.format(note.name))
            note.calls.append((np.array(outcomes), np.array(modelparams), np.array(expparams)))
            out = super(Watched, self).likelihood(outcomes, modelparams, expparams)
            if note.boom == 'after':
                note.boom = None
                w.fault('{} model fails'.format(note.name))
                raise W.SimFault('injected')
            return out
    Watched.__name__ = cls.__name__
    model.__class__ = Watched
    return model


def execute(sc, w):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, w)


def _run(sc, w):
    c = sc['config']
    notes = dict(good=Note('good'), apx=Note('approximate'))
    held = {}

    def factory(model, n, prior, resample_thresh, canonicalize=True, **kw):
        if c['apx'] == 'same':
            apx = model
        elif c['apx'] == 'twin':
            apx = watch(zoo.make(c['model']).model, notes['apx'], w)
        else:
            apx = watch(Apx(zoo.make(c['model']).model), notes['apx'], w)
        held['apx'] = apx
        watch(model, notes['good'], w)
        mix = {} if c['defaults'] else dict(mixture_ratio=c['ratio'], mixture_thresh=c['mthresh'], min_good=c['min_good'])
        return q.MixedApproximateSMCUpdater(model, apx, n, prior, resample_thresh=resample_thresh, **dict(kw, **mix))
    u, sh, setup, probe = shadow.build(sc, w, cls=factory)
    ratio, mth, mg = (.5, 1.0, 0) if c['defaults'] else (c['ratio'], c['mthresh'], c['min_good'])
    distorted = c['apx'] == 'distorted'
    fixed = bool(c.get('prior')) or c['mthresh'] == 1.0 / c['n'] != 1
    # The reference for the update just made
    sh.L = lambda o, ep: sh.mixL[0, :, 0]

    def assign(os, eps, what):
        """Checks the assignment seen by the models; -> likelihoods for the assignment (outcome, particle, experiment)."""
        x, wt = sh.x, sh.w
        good, apx = notes['good'].calls, notes['apx'].calls
        if c['apx'] == 'same':
            if len(good) not in (1, 2):
                raise Violation('evaluated-several-times', '{}: {} calls'.format(what, len(good)))
        elif len(good) > 1 or len(apx) > 1:
            raise Violation('evaluated-several-times', '{}: good {} approximate {} calls'.format(what, len(good), len(apx)))
        for o, mp, e in good + apx:
            if not shadow.same_value(e, eps) or not shadow.same_value(o, os):
                raise Violation('evaluated-for-other-datum', what)
        seen = np.concatenate([mp for _, mp, _ in good + apx])
        if len(seen) != len(x) or sorted(map(bytes, seen)) != sorted(map(bytes, np.ascontiguousarray(x))):
            raise Violation('not-each-particle-once', '{}: {} rows evaluated for {} particles'.format(what, len(seen), len(x)))
        G = sh.twin.model.likelihood(os, x, eps)
        if c['apx'] == 'same':
            return G, len(good[0][1])
        rows = {}
        for i, r in enumerate(np.ascontiguousarray(x)):
            rows.setdefault(bytes(r), []).append(i)
        if any(len(v) > 1 for v in rows.values()):
            if distorted and good and apx:
                raise W.Abandon('indistinguishable particles')
            isgood = np.full(len(x), bool(good))
        else:
            isgood = np.zeros(len(x), dtype=bool)
            for _, mp, _ in good:
                for r in np.ascontiguousarray(mp):
                    isgood[rows[bytes(r)][0]] = True
        ng = int(isgood.sum())
        if ng and ng < len(x) and np.max(wt[~isgood]) > np.min(wt[isgood]) * (1 + 1e-9):
            raise Violation('heavier-particle-approximated', '{}: a particle of weight {} was approximated, one of {} was not'.format(
                what, np.max(wt[~isgood]), np.min(wt[isgood])))
        if np.all(wt == mth) and ng < len(x):         # (of powers of two: exact)
            raise Violation('threshold-ignored', '{}: {} of {} particles of exactly the threshold weight {} were approximated'.format(what, len(x) - ng, len(x), mth))
        if np.any(~isgood & (wt >= mth * (1 + 1e-9))):
            raise Violation('threshold-ignored', '{}: weight {} approximated, threshold {}'.format(what, np.max(wt[~isgood]), mth))
        if wt[isgood].sum() < min(ratio, 1) - 1e-9:
            raise Violation('ratio-not-reached', '{}: {} of the weight evaluated well, ratio {}'.format(what, wt[isgood].sum(), ratio))
        if ratio >= 1 and ng < len(x):
            raise Violation('ratio-not-reached', '{}: {} of {} particles at ratio one'.format(what, ng, len(x)))
        if ng < min(mg, len(x)):
            raise Violation('minimum-not-reached', '{}: {} evaluated well, minimum {}'.format(what, ng, mg))
        if distorted:
            G = np.where(isgood[None, :, None], G, distort(G))
        return G, ng

    for k, op in enumerate(sc['ops']):
        what = 'op {} ({}; ratio {}, threshold {}, minimum {})'.format(k, op['op'], ratio, mth, mg)
        ep = setup.eps([op['ep']])
        for nt in notes.values():
            del nt.calls[:]
        ng = None
        if op['op'] in ('upd', 'fail'):
            o = sh.pick(op, ep)
            if o is None:
                continue
            if op['op'] == 'fail':
                nt = notes[op['where']]
                before = shadow.snapshot(u)
                nt.boom = op['when']
                st = np.random.get_state()
                try:
                    u.update(o, ep)
                    failed = False
                except W.SimFault:
                    failed = True
                nt.boom = None
                if failed:
                    d = shadow.same_snapshot(before, shadow.snapshot(u))
                    if d:
                        raise Violation('failed-update-changed-' + d, what)
                    probe.events[:] = []
                    for x in notes.values():
                        del x.calls[:]
                    u.update(o, ep)
                op = dict(op, chk=True)
            else:
                try:
                    u.update(o, ep, check_for_resample=op['chk'])
                except RuntimeError:
                    # numerically impossible under the mixture?
                    L, ng = assign(zoo.as_outcomes(o), ep, what)
                    if float(np.sum(sh.w * L[0, :, 0])) < 1e-11:
                        raise W.Abandon('datum became impossible')
                    raise
            sh.mixL, ng = assign(zoo.as_outcomes(o), ep, what)
            sh.bayes(o, ep)
            if op['chk']:
                sh.maybe_resample()
        elif op['op'] == 'hyp':
            eps = setup.eps(op['eps'])
            if 'varying' in setup.tags or 'vector' in setup.tags:
                eps = eps[:1]
            os = zoo.outcome_values(sh.twin.model, eps[:1])[:op['no']]
            before = shadow.snapshot(u)
            r = u.hypothetical_update(os, eps, return_likelihood=op['ret'] & 1, return_normalization=op['ret'] & 2)
            r = r if isinstance(r, tuple) else (r,)
            L, ng = assign(os, eps, what)
            d = shadow.same_snapshot(before, shadow.snapshot(u))
            if d:
                raise Violation('hypothetical-update-changed-' + d, what)
            L = L.transpose(0, 2, 1)
            h = sh.w * L
            nrm = h.sum(axis=2, keepdims=True)
            want = [np.where(np.abs(nrm) < 1e-17, h, h / np.where(nrm == 0, 1, nrm))]
            if op['ret'] & 1:
                want.append(L)
            if op['ret'] & 2:
                want.append(nrm)
            if len(r) != len(want):
                raise Violation('hypothetical-return', '{}: {} results'.format(what, len(r)))
            ok = (nrm > 1e-13) | (nrm == 0)
            for name, a, b in zip(['weights', 'second', 'third'], r, want):
                m = np.broadcast_to(ok, b.shape)
                if a.shape != b.shape or not shadow.close(a[m], b[m]):
                    raise Violation('hypothetical-' + name, '{}: {} {}'.format(what, a.shape, b.shape))
        elif op['op'] == 'resample':
            u.resample()
            sh.resample()
        elif op['op'] == 'reset':
            if op.get('n') and not fixed:
                u.reset(n_particles=op['n'])
            else:
                u.reset()
            sh.sync()
            if op.get('n') and not fixed and len(sh.x) != op['n']:
                raise Violation('reset-size', '{}: {} particles'.format(what, len(sh.x)))
            probe.events[:] = []
        sh.check(what)
        w.log(what, u.particle_weights, u.particle_locations)
        w.state(ratio, mth, mg, c['n'], op['op'], ng, min(sh.n_updates, 4))
        if ng is not None:
            w.notes['assignments'] += 1
            w.notes['partial assignments'] += 0 < ng < len(sh.x)
    w.notes['updates'] += sh.n_updates
