"""C05: resampling happens exactly when due and yields a valid equal-weight cloud."""
import numpy as np

from .. import shadow, zoo
from ..world import Abandon, Violation
from . import c01

LEVEL = 'exploration'
RULE = ('A run is a random history under a random threshold and resampler configuration; a reference filter decides '
        'before every update whether resampling is due (including effective sample sizes exactly on the threshold), '
        'and every resampled cloud is inspected.')
REAL = ['qinfer.smc.SMCUpdater', 'qinfer.resamplers.LiuWestResampler', 'models of the zoo']
STUB = ['random source incl. extreme values', 'uninitialised memory']
STATES = 'hash of (model kind, resampler configuration, threshold, resamplings so far, warned)'
RUNS = dict(quick=6000, thorough=150000)
CHUNK = 16
SPECS = zoo.STATIC + zoo.DRIFTING + [
    {'kind': 'sim', 'kw': {'limit': 0.91}}, {'kind': 'sim', 'kw': {'limit': 0.91, 'canon': True}},
    {'kind': 'sim', 'kw': {'limit': 0.92, 'drift': 0.02}, 'hard': 0.3}]
CORNERS = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def generate(rng, i, tier):
    if i % 8 == 7:
        return gen_exact(rng)
    spec = SPECS[(i // 2) % len(SPECS)]
    cfg = shadow.gen_config(rng, [spec])
    if spec['kind'] in ('multinomial', 'tomo'):
        cfg['n'] = min(cfg['n'], 50)
    cfg['thresh'] = rng.choice([0.0, 0.05, 0.2, 0.5, 0.5, 0.7, 0.9, 0.99, 1.0, 1.5])
    how = cfg['resampler'] = rng.choice(['explicit', 'explicit', 'explicit', 'default', 'resample_a'])
    if how == 'explicit':
        if rng.random() < .4:
            cfg['lw']['maxiter'] = rng.choice([1, 2, 3, 10])
        if rng.random() < .2:
            cfg['lw']['h'] = rng.choice([0.05, 0.5, 1.0, 2.0])
        if rng.random() < .25:
            cfg['lw']['default_n_particles'] = rng.choice([5, 16, 40, 120])
        if rng.random() < .1:
            cfg['lw']['postselect'] = False
    cfg['kw'] = {}
    if rng.random() < .15:
        cfg['kw']['track_resampling_divergence'] = True
    if rng.random() < .15:
        cfg['kw']['debug_resampling'] = True
    setup = zoo.make(spec)
    ops = c01.gen_ops(rng, setup, rng.randrange(3, 25))
    for op in ops:
        if op['op'] == 'upd' and rng.random() < .15:
            op['rare'] = True
    if spec['kind'] != 'sim' and set(cfg['lw']) & {'maxiter', 'h', 'postselect'}:
        # clouds may be declared invalid; most models cannot be evaluated there
        ops = [op for op in ops if op['op'] != 'batch'] or [dict(op='resample')]
    return dict(config=cfg, ops=ops, faults=[], extreme=0.03 if rng.random() < .35 else 0.0)


def gen_exact(rng):
    """Effective sample sizes that are exact powers of two, thresholds on and just off them."""
    n = rng.choice([8, 16, 32, 64, 128])
    pts = []
    for c, frac in zip(CORNERS, (2, 4, 8, 8)):
        pts += [c] * (n // frac)
    rng.shuffle(pts)
    t = rng.choice([1.0, 0.5, 0.25, 0.125])
    t *= rng.choice([1, 1, 1, 1 + 2.0 ** -40, 1 - 2.0 ** -40])
    cfg = dict(model=dict(kind='ndie', n=4), n=n, thresh=t, lw=dict(a=0.98, maxiter=20), canonicalize=True, prior=pts)
    ops = [dict(op='upd', ep=[0], u=round(rng.random(), 6), chk=True, rare=False) for _ in range(rng.randrange(1, 4))]
    if rng.random() < .3:
        ops.insert(0, dict(op='reset', how='plain', v=0))
    return dict(config=cfg, ops=ops, faults=[], exact=True)


def execute(sc, w):
    cfg = sc['config']
    box = {}

    def hook(u, sh, setup):
        box['sh'] = sh
        model = sh.twin.model
        lw = cfg.get('lw', {}) if cfg.get('resampler', 'explicit') == 'explicit' else {}

        def on_resample(e):
            old_x, new_w, raw_x, warns = e[2], e[3], e[4], e[5]
            if cfg.get('resampler', 'explicit') == 'explicit':
                n = lw.get('default_n_particles') or len(old_x)
            elif cfg['resampler'] == 'default':
                n = cfg['n']
            else:
                n = len(old_x)
            if raw_x.shape != (n, old_x.shape[1]) or new_w.shape != (n,):
                raise Violation('cloud-size', '{} expected {}'.format(raw_x.shape, n))
            if not np.all(np.abs(new_w * n - 1) < 1e-12):
                raise Violation('weights-not-equal', str(new_w[:5]))
            if not np.all(np.isfinite(raw_x)):
                raise Violation('not-finite', '')
            if 'sim' in setup.tags and np.max(np.abs(raw_x)) > 40:
                raise Abandon('particles so far out that their likelihoods overflow')
            x = sh.x                      # after canonicalisation
            ok = model.are_models_valid(raw_x)
            if not np.all(ok):
                w.notes['invalid particles'] += int(np.sum(~ok))
                box['invalid'] = 'sim' not in setup.tags
                if lw.get('postselect', True) and 'ResamplerWarning' not in warns:
                    raise Violation('invalid-without-warning', '{} of {} particles'.format(np.sum(~ok), n))
            if sh.canon and 'tomo' not in setup.tags:
                if not shadow.close(model.canonicalize(np.array(x)), x):
                    raise Violation('not-canonical', '')
                if np.all(ok) and not np.all(model.are_models_valid(x)):
                    raise Violation('invalid-after-canonicalisation', '')
            w.state(cfg['model']['kind'], str(sorted(lw)), cfg.get('resampler'), cfg['thresh'],
                    min(sh.count, 5), 'ResamplerWarning' in warns)
        sh.on_resample = on_resample

    def after(u, sh, setup, op):
        if op['op'] == 'resample' and not u.just_resampled:
            raise Violation('just-resampled-unset', '')
        x = np.array(u.particle_locations)
        if not np.all(np.isfinite(x)) or len(x) != len(u.particle_weights):
            raise Violation('cloud-broken', '')
    n0 = [0]

    def each(u, sh, setup, op):
        after(u, sh, setup, op)
        if op['op'] == 'upd':
            just = sh.count > n0[0]
            if bool(u.just_resampled) != just:
                raise Violation('just-resampled-wrong', '{} although {}'.format(u.just_resampled, just))
        n0[0] = sh.count
        if box.get('invalid'):
            raise Abandon('invalid particles, as warned')
    u, sh = c01.drive(sc, w, after=each, before=hook)
    if sc.get('exact'):
        w.notes['effective sample sizes exactly at or next to the threshold'] += 1
