"""A small, single-step reference implementation of sequential Monte Carlo.

The shadow predicts, operation by operation, what an SMCUpdater must hold.  It
knows only Bayes' rule and the resampling condition; random moves (resampler
output, the model's time step, samples of the prior) are taken from what the
instrumented environment observed, in order.
"""
import warnings

import numpy as np

from . import zoo
from .world import Abandon, Violation

RT = 1e-9


def close(a, b, rt=RT, at=1e-13):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= at + rt * np.abs(b)) | (a == b)))


def ess_of(w):
    return 1.0 / float(np.sum(np.asarray(w) ** 2))


def dyadic(w):
    """True if the effective sample size is the same however it is computed."""
    nz = w[w > 0]
    return len(nz) > 0 and np.all(nz == nz[0]) and float(np.frexp(nz[0])[0]) == 0.5


def snapshot(u, records=True):
    d = dict(w=np.array(u.particle_weights), x=np.array(u.particle_locations))
    if records:
        d.update(data=list(u.data_record), norm=np.array(u.normalization_record, dtype=float),
                 count=u.resample_count, min_ess=float(u.min_n_ess),
                 just=bool(u.just_resampled))
    return d


def same_snapshot(a, b, skip=()):
    for k in a:
        if k in skip:
            continue
        if k == 'data':
            if len(a[k]) != len(b[k]) or not all(same_value(x, y) for x, y in zip(a[k], b[k])):
                return k
        elif isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or a[k].tobytes() != b[k].tobytes():
                return k
        elif a[k] != b[k]:
            return k
    return None


def same_value(x, y):
    return np.asarray(x).tobytes() == np.asarray(y).tobytes() or bool(np.all(np.asarray(x) == np.asarray(y)))


class Shadow(object):
    def __init__(self, setup, twin, upd, probe, thresh, canonicalize=True):
        self.setup, self.twin, self.u, self.probe = setup, twin, upd, probe
        self.thresh, self.canon = thresh, canonicalize
        self.data, self.norm = [], []
        self.n_updates = self.n_resamples = 0
        self.min_ess = upd.n_particles
        self.count = 0
        self.on_resample = None
        self.sync()

    def sync(self):
        self.w = np.array(self.u.particle_weights)
        self.x = np.array(self.u.particle_locations)

    # -- single steps ------------------------------------------------------
    def L(self, outcome, ep):
        return self.twin.model.likelihood(zoo.as_outcomes(outcome), self.x, ep)[0, :, 0]

    def bayes(self, outcome, ep):
        hyp = self.w * self.L(outcome, ep)
        if np.any(hyp < 0):
            raise Abandon('negative likelihood')     # clipped by the updater, with a warning
        n = hyp.sum()
        self.w = hyp / n
        self.norm.append(n)
        self.data.append(outcome)
        self.n_updates += 1
        e = self._next('T', 'accepted update did not take exactly one time step')
        if not close(e[1], self.x, at=0, rt=0) or not same_value(e[2], ep):
            raise Violation('timestep-of-wrong-particles',
                            'time step was not taken from the particles at which the likelihood was evaluated')
        self.x = e[3][:, :, 0]
        self.min_ess = min(self.min_ess, ess_of(self.w))

    def _next(self, kind, why):
        ev = self.probe.events
        if not ev or ev[0][0] != kind:
            raise Violation('unexpected-step-' + kind, '{}; events {}'.format(why, [e[0] for e in ev[:5]]))
        return ev.pop(0)

    def due(self):
        """True, False or None (too close to tell)."""
        e, t = ess_of(self.w), self.w.shape[0] * self.thresh
        if e == t and dyadic(self.w) and float(t) == int(t):
            return False
        if abs(e - t) <= 1e-10 * t:
            return None
        return e < t

    def maybe_resample(self):
        d = self.due()
        if d is None:
            d = bool(self.probe.events and self.probe.events[0][0] == 'R')
        if d:
            self.resample()
        return d

    def resample(self, forced=False):
        e = self._next('R', 'resampling was due but not performed')
        if not close(e[1], self.w) or not close(e[2], self.x):
            raise Violation('posterior-mismatch-at-resampling',
                            'weights or particles given to the resampler differ from the exact posterior; '
                            'max weight error {}'.format(np.max(np.abs(e[1] - self.w)) if e[1].shape == self.w.shape else 'shape'))
        self.w, self.x = e[3], e[4]
        if self.canon:
            self.x = self.twin.model.canonicalize(np.array(self.x))
        self.count += 1
        self.n_resamples += 1
        self.last_warn = e[5]
        if self.on_resample:
            self.on_resample(e)

    # -- comparing ----------------------------------------------------------
    def check(self, what=''):
        u = self.u
        if self.probe.events:
            k = self.probe.events[0][0]
            raise Violation('unexpected-extra-' + {'T': 'timestep', 'R': 'resampling'}.get(k, k),
                            '{}: {} was performed although it was not due'.format(what, k))
        if not close(u.particle_weights, self.w):
            a = np.asarray(u.particle_weights)
            raise Violation('weights-mismatch', '{}: weights differ by up to {} (sum {})'.format(
                what, np.max(np.abs(a - self.w)) if a.shape == self.w.shape else a.shape, a.sum()))
        if not close(u.particle_locations, self.x):
            raise Violation('locations-mismatch', '{}: particles were moved'.format(what))
        if abs(np.sum(u.particle_weights) - 1) > 1e-9:
            raise Violation('not-normalised', '{}: {}'.format(what, np.sum(u.particle_weights)))
        if len(u.data_record) != len(self.data) or not all(
                same_value(a, b) for a, b in zip(u.data_record, self.data)):
            raise Violation('data-record', '{}: {} expected {}'.format(what, u.data_record[-3:], self.data[-3:]))
        nr = np.array(u.normalization_record, dtype=float).reshape(-1)
        if not close(nr, self.norm):
            raise Violation('normalization-record', '{}: {} expected {}'.format(what, nr[-3:], self.norm[-3:]))
        lt = float(u.log_total_likelihood)
        ex = float(np.sum(np.log(self.norm))) if self.norm else 0.0
        if abs(lt - ex) > 1e-8 * (1 + abs(ex)):
            raise Violation('log-total-likelihood', '{}: {} expected {}'.format(what, lt, ex))
        if abs(float(u.min_n_ess) - self.min_ess) > 1e-8 * self.min_ess:
            raise Violation('min-n-ess', '{}: {} expected {}'.format(what, u.min_n_ess, self.min_ess))
        if u.resample_count != self.count:
            raise Violation('resample-count', '{}: {} expected {}'.format(what, u.resample_count, self.count))
        if abs(float(u.n_ess) - ess_of(self.w)) > 1e-8 * ess_of(self.w):
            raise Violation('n-ess', '{}: {} expected {}'.format(what, u.n_ess, ess_of(self.w)))
        self.sync()

    # -- driving -----------------------------------------------------------
    def pick(self, op, ep):
        return zoo.choose_outcome(self.setup, self.twin.model, ep, self.x, self.w, op['u'],
                                  op.get('rare', False))


def build(sc, w, wrap=None, cls=None, **over):
    """Updater plus instrumentation from a scenario's config."""
    import qinfer as q
    c = dict(sc['config'])
    c.update(over)
    setup, twin = zoo.make(c['model']), zoo.make(c['model'])
    if wrap is not None:
        setup.model = wrap(setup.model)
    probe = zoo.Probe(w)
    zoo.instrument(setup.model, probe)
    how = c.get('resampler', 'explicit')
    kw = dict(c.get('kw', {}))
    if how == 'explicit':
        kw['resampler'] = zoo.ProbeResampler(q.LiuWestResampler(**c.get('lw', {})), probe)
    elif how == 'resample_a':
        kw['resample_a'] = c.get('lw', {}).get('a', 0.98)
    if c.get('prior'):
        setup.prior = zoo.FixedPrior(c['prior'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        u = (cls or q.SMCUpdater)(setup.model, c['n'], setup.prior, resample_thresh=c['thresh'],
                                  canonicalize=c.get('canonicalize', True), **kw)
    if how != 'explicit':
        u.resampler = zoo.ProbeResampler(u.resampler, probe)
    probe.events[:] = []
    sh = Shadow(setup, twin, u, probe, c['thresh'], c.get('canonicalize', True))
    return u, sh, setup, probe


def gen_config(rng, specs, ns=(8, 16, 32, 50, 100, 200)):
    return dict(model=rng.choice(specs), n=zoo.big(rng, rng.choice(list(ns))),
                thresh=rng.choice([0.0, 0.1, 0.3, 0.5, 0.5, 0.8, 0.95, 1.0]),
                lw=dict(a=rng.choice([0.98, 0.98, 0.9, 1.0, 0.5])),
                canonicalize=rng.random() < .8)
