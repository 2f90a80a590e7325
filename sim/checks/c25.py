"""C25: tomography only ever holds physical states and proposes valid measurements."""
import math
import warnings

import numpy as np
import qinfer as q

from .. import shadow, stats, zoo
from .. import world as W
from ..dists import _basis
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run learns a simulated quantum state or channel through a history of proposed measurements, adversarially chosen outcomes, drift, '
        'failing evaluations, resampling, resets and repairs of unphysical operators; after every step each particle is '
        'diagonalised, each proposal is decomposed, and likelihoods, repairs and choices are compared with their definitions.')
REAL = ['qinfer.tomography (models, distributions, expdesign, bases)', 'qinfer.smc.SMCUpdater', 'qinfer.resamplers', 'qinfer.derived_models.BinomialModel',
        'qutip operators and random states']
STUB = ['measured system (outcomes are chosen)', 'failures of the model', 'random source', 'uninitialised memory']
STATES = 'hash of (model, basis, prior, operation, heuristic, whether resampling, drift or repair took place, updates so far)'
RUNS = dict(quick=1500, thorough=40000)
CHUNK = 4
NEEDS_OPS = False
TOL = 1e-9
BASES = ['pauli1', '2', '2', '3', '3', '4', 'pauli2', 'tensor']


def qobj(basis, M):
    import qutip as qt
    return qt.Qobj(M, dims=[list(basis.dims), list(basis.dims)])


def op_of(basis, v):
    """Operator (dense) with the given coefficients."""
    return np.einsum('i,ijk->jk', np.asarray(v), basis.data)


def vec_of(basis, M):
    return np.real(np.einsum('ijk,jk->i', basis.data.conj(), M))


class Subnormal(q.SingleSampleMixin, q.Distribution):
    """States of a prior, scaled down to random traces."""
    def __init__(self, inner):
        self.inner = inner

    @property
    def n_rvs(self):
        return self.inner.n_rvs

    def _sample(self):
        return self.inner.sample(1)[0] * (.8 + .2 * np.random.random_sample())


def _prior(spec):
    from qinfer import tomography as t
    name, rank = spec['prior'], spec.get('rank')
    basis = None if spec['basis'] == 'channel' else _basis(spec['basis'])
    if name == 'bcsz':
        return t.BCSZChoiDistribution(_basis(spec['sub']), rank=rank, enforce_tp=spec['tp'])
    if name == 'tensor':
        fs = [_basis('pauli1'), _basis('pauli1')] if spec['basis'] == 'pauli2' else [_basis('pauli1'), _basis('3')]
        return t.TensorProductDistribution([t.GinibreDistribution(fs[0]), t.GinibreReditDistribution(fs[1], rank)])
    if name == 'redit':
        return t.GinibreReditDistribution(basis, rank)
    if name == 'gadfli':
        p = np.array(spec['mean'][:basis.dim])
        p = p / p.sum()
        U = np.linalg.qr(np.vander(np.arange(1, basis.dim + 1) * (1 + .3j)))[0]
        return t.GADFLIDistribution(t.GinibreDistribution(basis, rank), qobj(basis, (U * p) @ U.conj().T))
    return t.GinibreDistribution(basis, rank)


def _tomo25(spec):
    from qinfer import tomography as t
    prior = _prior(spec)
    basis = prior.basis
    kw = dict(allow_subnormalized=True) if spec['sub_ok'] else {}
    if spec['sub_ok']:
        prior = Subnormal(prior)
    m = (t.DiffusiveTomographyModel if spec['diffusive'] else t.TomographyModel)(basis, **kw)
    base = m
    if spec['diffusive']:
        prior = q.ProductDistribution(prior, q.UniformDistribution([1e-4, spec['eps']]))
    if spec['binomial']:
        m = q.BinomialModel(m)
    n, d2 = spec['binomial'], basis.dim ** 2

    def ref(os, mps, eps):
        p1 = np.clip(np.einsum('mi,ijk,ekj->me', mps[:, :d2], basis.data, np.einsum('ei,ijk->ejk', eps['meas'], basis.data)).real, 0, 1)
        if not n:
            return zoo._pr0(os, 1 - p1)
        return np.stack([np.stack([math.comb(int(e['n_meas']), int(o)) * p1[:, j] ** int(o) * (1 - p1[:, j]) ** (int(e['n_meas']) - int(o))
                                   if 0 <= o <= e['n_meas'] else 0 * p1[:, j] for j, e in enumerate(eps)], axis=1) for o in os])
    s = zoo.Setup(m, prior, zoo._rec, None, ref, {'finite', 'tomo', 'canon'})
    s.basis, s.tomo = basis, base
    return s


zoo.KINDS['tomo25'] = _tomo25


def generate(rng, i, tier):
    channel = rng.random() < .25
    spec = dict(kind='tomo25', diffusive=rng.random() < .4, binomial=rng.choice([0, 0, 0, 4]), eps=rng.choice([.01, .1, .5]))
    if channel:
        sub = rng.choice(['pauli1', 'pauli1', '2', '3'] * 2 + ['pauli2'])
        d = dict(pauli2=4).get(sub, 3 if sub == '3' else 2)
        spec.update(basis='channel', sub=sub, prior='bcsz', tp=rng.random() < .75, rank=rng.choice([None, None, 1, 2]), sub_ok=False)
        if spec['tp'] and spec['rank'] == 1:
            spec['rank'] = rng.choice([None, 2])
    else:
        b = rng.choice(BASES)
        d = {'pauli1': 2, 'pauli2': 4, 'tensor': 6}.get(b) or int(b)
        spec.update(basis=b, prior=rng.choice(['ginibre', 'ginibre', 'redit', 'gadfli'] + ['tensor'] * 2 * (b in ('pauli2', 'tensor'))),
                    rank=rng.choice([None, None, 1, 2]), sub_ok=rng.random() < .15, mean=[round(rng.uniform(.5, 2), 3) for _ in range(6)])
        if spec['prior'] == 'gadfli' and max(spec['mean'][:d]) - min(spec['mean'][:d]) < .05:
            spec['mean'][0] += .2
    heur = []
    for _ in range(rng.randrange(1, 4)):
        kinds = ['stabilizer', 'stabilizer']
        if d in (2, 4):
            kinds.append('pauli')
        h = dict(kind=rng.choice(kinds))
        if channel:
            h = dict(kind='product', prep=h['kind'], meas=rng.choice(kinds))
        if rng.random() < .4:
            h['best'] = rng.choice([1, 2, 3, 5])
            h['late'] = rng.random() < .5
        if spec['diffusive'] and rng.random() < .8:
            h['t'] = rng.choice([0.0, .01, .3, 1.0, 10.0])
        if spec['binomial']:
            h['n_meas'] = rng.randrange(1, 5)
        if h.get('best') and (spec['diffusive'] or spec['binomial']) and rng.random() < .5:
            # The base heuristic chooses a further field for each candidate
            h['number'] = rng.choice(['t'] * spec['diffusive'] + ['n_meas'] * bool(spec['binomial']))
            h.pop(h['number'], None)
        heur.append(h)
    n = rng.choice([1, 2, 5, 12, 30, 80]) if channel or d > 2 else zoo.big(rng, rng.choice([1, 2, 5, 12, 30, 80]), .005, (257, 300))
    cfg = dict(model=spec, n=n, thresh=rng.choice([0.0, .3, .5, .8, 1.0]), lw=dict(a=rng.choice([.98, .9, .5, 1.0])), heur=heur,
               extreme=rng.choice([0, 0, 0, .05, .3]) if spec['prior'] != 'bcsz' else 0)
    big = channel and d == 4         # 256 parameters
    if big:
        cfg.update(n=rng.choice([1, 2, 4]), thresh=rng.choice([0.0, 0.0, .8]))
    ops = []
    for _ in range(rng.randrange(2, 4 if big else 14 if d < 5 else 8)):
        x = rng.random()
        op = dict(op='meas', h=rng.randrange(3), u=round(rng.random(), 6), rare=rng.random() < .3)
        if x < .08:
            op.update(op='resample')
        elif x < .12:
            op.update(op='reset')
        elif x < .22:
            op.update(op='repair', seed=rng.randrange(10 ** 6), k=rng.randrange(1, 5))
        elif x < .3:
            op.update(op='drift', ts=[rng.choice([0.0, .01, .5, 3.0]) for _ in range(rng.randrange(1, 4))])
        elif x < .4:
            op.update(op='convert')
        elif x < .5:
            op.update(op='fail', where=rng.choice(['likelihood', 'update_timestep', 'resampler', 'canonicalize']), when=rng.choice(['before', 'after']))
        elif x < .58:
            op.update(op='batch', hs=[rng.randrange(3) for _ in range(rng.randrange(1, 4))], iv=rng.randrange(1, 3))
        ops.append(op)
    return dict(config=cfg, ops=ops, faults=[])


def execute(sc, w):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        _run(sc, w)


def heuristics(u, setup, cfgs, w):
    from qinfer.tomography import expdesign as e
    import qinfer.tomography as t
    kinds = dict(stabilizer=e.RandomStabilizerStateHeuristic, pauli=e.RandomPauliHeuristic)
    out = []
    for c in cfgs:
        fields = {k: c[k] for k in ('t', 'n_meas') if k in c}
        late = fields if c.get('late') else {}
        base_fields = {} if c.get('late') else fields
        if c['kind'] == 'product':
            basis = _basis(setup.spec['sub'])
            h = e.ProductHeuristic(u, basis, kinds[c['prep']], kinds[c['meas']], **({'other_fields': base_fields} if base_fields else {}))
        else:
            h = kinds[c['kind']](u, **({'other_fields': base_fields} if base_fields else {}))
        props = []
        if c.get('best'):
            def base(h=h, props=props, number=c.get('number')):
                p = h()
                if number:
                    # Fields that differ between candidates
                    p[number] = len(props) + 1
                props.append(np.array(p))
                return p
            g = e.BestOfKMetaheuristic(u, base, k=c['best'], **({'other_fields': late} if late else {}))
        else:
            g = h
        out.append((c, g, props))
    return out


def _run(sc, w):
    c = sc['config']
    spec = c['model']
    w.extreme_p = c['extreme']
    u, sh, setup, probe = shadow.build(sc, w)
    setup.spec = spec
    basis, model, d2 = setup.basis, setup.tomo, setup.basis.dim ** 2
    d = basis.dim
    twin = sh.twin.tomo
    hs = heuristics(u, setup, c['heur'], w)
    hname = lambda h: (h['kind'], h.get('prep'), h.get('meas'), h.get('best', 0) > 1)

    def physical(mps, what):
        mps = np.asarray(mps)
        if mps.ndim != 2 or mps.shape[1] != d2 + spec['diffusive']:
            raise Violation('particles-shape', '{}: {}'.format(what, mps.shape))
        if not np.all(np.isfinite(mps)):
            raise Violation('particles-not-finite', what)
        ops = np.einsum('ni,ijk->njk', mps[:, :d2], basis.data)
        herm = np.max(np.abs(ops - ops.conj().transpose(0, 2, 1)))
        if herm > TOL:
            raise Violation('particles-not-hermitian', '{}: by {}'.format(what, herm))
        ev = np.linalg.eigvalsh(ops)
        if ev.min() < -TOL:
            raise Violation('particles-not-positive', '{}: eigenvalue {}'.format(what, ev.min()))
        if not spec['sub_ok'] and np.max(np.abs(ev.sum(axis=1) - 1)) > TOL:
            raise Violation('particles-trace', '{}: traces {}'.format(what, ev.sum(axis=1)[:5]))
        if spec['diffusive'] and mps[:, -1].min() <= 0:
            raise Violation('diffusion-rate', '{}: {}'.format(what, mps[:, -1].min()))
        return ev

    def check(what):
        physical(u.particle_locations, what)
        mean = u.est_mean()
        physical(mean[None, :], what + ' mean')
        sh.check(what)

    def propose(k, what):
        h, g, props = hs[k % len(hs)]
        props[:] = []
        before = shadow.snapshot(u)
        try:
            e = g()
        except np.linalg.LinAlgError:
            raise W.Abandon('degenerate cloud')
        bad = shadow.same_snapshot(before, shadow.snapshot(u))
        if bad:
            raise Violation('proposal-changed-' + bad, what)
        if e.shape != (1,) or e.dtype != np.dtype(setup.model.expparams_dtype):
            raise Violation('proposal-format', '{}: {} {}'.format(what, e.shape, e.dtype))
        for f in ('t', 'n_meas'):
            if f in h and e[f][0] != h[f]:
                raise Violation('proposal-field', '{}: {} is {} given {}'.format(what, f, e[f][0], h[f]))
        valid(h, e, what)
        if h.get('best'):
            if len(props) != h['best']:
                raise Violation('number-of-candidates', '{}: {} for k = {}'.format(what, len(props), h['best']))
            for p in props:
                valid(h, p, what)
            x, wt = sh.x[:, :d2], sh.w
            mu = wt @ x
            cov = np.einsum('n,ni,nj->ij', wt, x - mu, x - mu)
            var = [p['meas'][0] @ cov @ p['meas'][0] for p in props]
            mine = [v for p, v in zip(props, var) if np.array_equal(p['meas'], e['meas'])
                    and (not h.get('number') or p[h['number']][0] == e[h['number']][0])]
            if not mine:
                raise Violation('not-a-candidate', what)
            if mine[0] < max(var) - 1e-9 * max(max(var), 1e-3):
                raise Violation('not-the-best', '{}: variance {} of {}'.format(what, mine[0], var))
        return h, e

    def valid(h, e, what):
        M = op_of(basis, e['meas'][0])
        if not np.allclose(M, M.conj().T, atol=1e-9):
            raise Violation('measurement-not-hermitian', what)
        ev = np.linalg.eigvalsh(M)
        if h['kind'] != 'product':
            if ev[0] < -1e-6 or ev[-1] > 1 + 1e-6:
                raise Violation('not-an-effect', '{}: eigenvalues {}'.format(what, ev))
            E, P = M, None
        else:
            # D (P (x) E), with a state P and an effect E, D = dimension of the system
            D = int(round(math.sqrt(d)))
            T = M.reshape(D, D, D, D)
            tr = np.trace(M).real
            P = np.einsum('ajbj->ab', T)
            P = P / np.trace(P)
            E = np.einsum('ajai->ji', T) / D
            if not np.allclose(D * np.kron(P, E), M, atol=1e-6):
                raise Violation('not-preparation-and-effect', '{}: trace {}'.format(what, tr))
            pe, ee = np.linalg.eigvalsh(P), np.linalg.eigvalsh(E)
            if pe[0] < -1e-6 or ee[0] < -1e-6 or ee[-1] > 1 + 1e-6:
                raise Violation('not-an-effect', '{}: preparation {} effect {}'.format(what, pe, ee))
        kind = h['kind'] if P is None else h['meas']
        for X, kd in [(E, kind)] + ([(P, h['prep'])] if P is not None else []):
            ev = np.linalg.eigvalsh(X)
            tr = ev.sum()
            if kd == 'stabilizer' and (abs(tr - 1) > 1e-6 or abs(ev[-1] - 1) > 1e-6):
                raise Violation('not-a-pure-projector', '{}: eigenvalues {}'.format(what, ev))
            if kd == 'pauli' and X is E and not np.allclose(np.sort(ev), [0] * (len(ev) // 2) + [1] * (len(ev) // 2), atol=1e-6):
                raise Violation('not-a-pauli-effect', '{}: eigenvalues {}'.format(what, ev))

    def born(o, e, what):
        for os in (zoo.outcome_values(setup.model, e),):
            probe.on = False
            got = setup.model.likelihood(os, sh.x, e)
            probe.on = True
            want = setup.ref(os, sh.x, e)
            if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-9:
                raise Violation('born-rule', '{}: {} expected {}'.format(what, got[:, :3, 0].tolist(), want[:, :3, 0].tolist()))
            if spec['basis'] == 'channel' and spec['tp'] and not sh.n_resamples and not (spec['diffusive'] and sh.n_updates):
                raw = sh.x[:, :d2] @ e['meas'][0]
                if raw.min() < -1e-6 or raw.max() > 1 + 1e-6:
                    raise Violation('channel-probability', '{}: {} to {}'.format(what, raw.min(), raw.max()))

    def pick(e, op):
        o = zoo.choose_outcome(setup, twin if not spec['binomial'] else sh.twin.model, e, sh.x, sh.w, op['u'], op.get('rare', False), floor=1e-5)
        return o
    if spec['prior'] == 'bcsz' and spec['tp']:
        D = int(round(math.sqrt(d)))
        for v in u.particle_locations[:20, :d2]:
            T = op_of(basis, v).reshape(D, D, D, D)
            if not np.allclose(np.einsum('ajbj->ab', T), np.eye(D) / D, atol=1e-7):
                raise Violation('not-trace-preserving', str(T))
    check('start')
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({})'.format(k, op['op'])
        probe.events[:] = []
        nres = sh.n_resamples
        h = None
        try:
            if op['op'] in ('meas', 'fail'):
                h, e = propose(op['h'], what)
                what += ' ' + '/'.join(str(x) for x in hname(h))
                o = pick(e, op)
                if o is None:
                    continue
                born(o, e, what)
                if op['op'] == 'fail':
                    what += ', {} fails {}'.format(op['where'], op['when'])
                    n0 = len(u.normalization_record)
                    before = shadow.snapshot(u)
                    probe.arm(op['where'], 0, op['when'])
                    try:
                        u.update(o, e)
                        failed = False
                    except W.SimFault:
                        failed = True
                    probe.disarm()
                    physical(u.particle_locations, what)
                    if failed and len(u.normalization_record) == n0:
                        bad = shadow.same_snapshot(before, shadow.snapshot(u))
                        if bad:
                            raise Violation('failed-update-changed-' + bad, what)
                        probe.events[:] = []
                        u.update(o, e)
                        failed = False
                    if failed:
                        probe.events[:] = [ev for ev in probe.events if ev[0] == 'T']
                        sh.bayes(o, e)
                    else:
                        sh.bayes(o, e)
                        sh.maybe_resample()
                else:
                    u.update(o, e)
                    sh.bayes(o, e)
                    sh.maybe_resample()
            elif op['op'] == 'batch':
                prop = [propose(j, what) for j in op['hs']]
                eps = np.concatenate([e for _, e in prop])
                os = np.array([pick(eps[j:j + 1], op) for j in range(len(eps))])
                if any(o is None for o in os):
                    continue
                try:
                    u.batch_update(os, eps, resample_interval=op['iv'])
                except RuntimeError:
                    raise W.Abandon('a datum of a batch became impossible')
                for j in range(len(eps)):
                    sh.bayes(os[j], eps[j:j + 1])
                    if (j + 1) % op['iv'] == 0:
                        sh.maybe_resample()
            elif op['op'] == 'resample':
                u.resample()
                sh.resample()
            elif op['op'] == 'reset':
                u.reset()
                probe.events[:] = []
                sh.data, sh.norm = list(u.data_record), [float(x) for x in np.ravel(u.normalization_record)]
                sh.min_ess, sh.count = float(u.min_n_ess), u.resample_count
                sh.sync()
            elif op['op'] == 'drift':
                if not spec['diffusive']:
                    continue
                drift(op, what, sh, setup, model, physical, d2, w)
                probe.events[:] = []
            elif op['op'] == 'repair':
                repair(op, what, model, basis, spec, d2, w)
                probe.events[:] = []
            else:
                convert(what, sh, basis, d2)
        except np.linalg.LinAlgError:
            raise W.Abandon('degenerate cloud')
        check(what)
        w.log(what, sh.w, sh.x)
        w.state(spec['basis'], spec['prior'], spec['diffusive'], spec['sub_ok'], op['op'], hname(h) if h else op.get('where'),
                sh.n_resamples > nres, min(sh.n_updates, 5))
        w.step()
    w.notes['updates'] += sh.n_updates
    w.notes['resamplings'] += sh.n_resamples
    w.notes['particles diagonalised'] += len(sh.x) * (len(sc['ops']) + 1)


def drift(op, what, sh, setup, model, physical, d2, w):
    eps = np.zeros(len(op['ts']), dtype=setup.model.expparams_dtype)
    eps['t'] = op['ts']
    if 'n_meas' in eps.dtype.names:
        eps['n_meas'] = 1
    x = sh.x.copy()
    out = setup.model.update_timestep(x, eps)
    if out.shape != x.shape + (len(eps),):
        raise Violation('drift-shape', '{}: {}'.format(what, out.shape))
    for j, t in enumerate(op['ts']):
        physical(out[:, :, j], what + ' after {}'.format(t))
        if not np.array_equal(out[:, -1, j], x[:, -1]):
            raise Violation('drift-changed-rate', what)
        if t == 0 and not np.allclose(out[:, :, j], x, atol=1e-8):
            raise Violation('moved-in-no-time', '{}: by {}'.format(what, np.max(np.abs(out[:, :, j] - x))))
        # An upper bound: repairing is a projection up to the trace, which it rescales by at most the negative part.
        w.notes['drift steps'] += 1
    if not np.array_equal(x, sh.x):
        raise Violation('drift-modified-its-input', what)
    diffusion(op, what, setup, model, d2, w)


def diffusion(op, what, setup, model, d2, w):
    """Steps around the maximally mixed state, too small for any repair: independent normal, with each particle's rate."""
    r = np.random.RandomState(len(op['ts']) * 1000 + int(100 * sum(op['ts'])))
    n, d = 300, int(round(d2 ** .5))
    x = np.zeros((n, d2 + 1))
    x[:, 0] = d ** -.5
    x[:, -1] = r.uniform(.2, 1, n) * 1e-3 / d
    eps = np.zeros(1, dtype=setup.model.expparams_dtype)
    eps['t'] = t = r.choice([.01, .5, 2.0])
    if 'n_meas' in eps.dtype.names:
        eps['n_meas'] = 1
    p, w.extreme_p = w.extreme_p, 0.0
    try:
        out = setup.model.update_timestep(x.copy(), eps)[:, :, 0]
    finally:
        w.extreme_p = p
    z = (out[:, 1:-1] - x[:, 1:-1]) / (x[:, -1:] * math.sqrt(t))
    if not stats.normal_ok(z.ravel()):
        raise Violation('diffusion-law', '{}: standard deviation {} of its rate'.format(what, z.std()))
    if not np.allclose(out[:, 0], x[:, 0], rtol=1e-12):
        raise Violation('diffusion-changed-trace', what)
    if len(z) > 1:
        ok, at = stats.mean_ok((z[:-1] * z[1:]).reshape(-1, 1), 0)
        ok2, at2 = stats.mean_ok((z[:, :-1] * z[:, 1:]).reshape(-1, 1), 0)
        ok3, at3 = stats.cov_ok(z[:, :1], np.zeros(1), np.eye(1))
        if not (ok and ok2 and ok3):
            raise Violation('diffusion-steps-correlated', '{}: {} {} {}'.format(what, at, at2, at3))
    w.notes['diffusion steps'] += z.size


def repair(op, what, model, basis, spec, d2, w):
    r = np.random.RandomState(op['seed'])
    d = basis.dim
    rows, good = [], []
    for _ in range(op['k'] + 2):
        A = r.randn(d, d) + 1j * r.randn(d, d)
        U = np.linalg.qr(A)[0]
        kind = r.randint(5)
        lam = r.rand(d) + .02
        if kind == 1:
            lam[:r.randint(0, d)] *= -1           # some negative
        elif kind == 2:
            lam[0] = -1e-6
        elif kind == 3:
            lam[:-1] = 0                          # pure up to rounding
            if r.rand() < .5:
                lam[0] = -.2
        elif kind == 4:
            lam[:] = lam[0]                       # degenerate
            lam[0] *= r.choice([-1, 1])
        if lam.sum() < .05:
            lam[-1] += 1 - lam.sum()
        lam = lam / lam.sum() * (r.uniform(.5, 1) if spec['sub_ok'] else 1)
        rows.append(vec_of(basis, (U * lam) @ U.conj().T))
        good.append((U, lam))
    rows = np.array(rows)
    given = rows.copy()
    if spec['diffusive']:
        rate = r.rand(len(rows), 1) + .01
        rows = np.concatenate([rows, rate], axis=1)
    fixed = model.canonicalize(rows.copy())
    if fixed.shape != rows.shape:
        raise Violation('repair-shape', '{}: {}'.format(what, fixed.shape))
    if spec['diffusive'] and not np.array_equal(fixed[:, -1], rows[:, -1]):
        raise Violation('repair-changed-rate', what)
    for v, f, (U, lam) in zip(given, fixed[:, :d2], good):
        pos = np.maximum(lam, 0)
        want = (U * pos) @ U.conj().T
        one = op_of(basis, model.trunc_neg_eigs(v.copy()))
        if not np.allclose(one, want, atol=1e-9):
            raise Violation('repair', '{}: of eigenvalues {} gives {}'.format(what, lam, np.linalg.eigvalsh(one)))
        if not spec['sub_ok']:
            want = want / pos.sum()
        if not np.allclose(op_of(basis, f), want, atol=1e-9):
            raise Violation('repair-all', '{}: of eigenvalues {} gives {}'.format(what, lam, np.linalg.eigvalsh(op_of(basis, f))))
        if lam.min() > 1e-9 and not np.allclose(f, v, atol=1e-12):
            raise Violation('repair-changed-physical-state', '{}: {}'.format(what, f - v))
        if lam.min() < 0:
            w.fault('unphysical operator')


def convert(what, sh, basis, d2):
    qs = basis.modelparams_to_state(sh.x[:3, :d2])
    for v, s in zip(sh.x[:3, :d2], qs):
        if not np.allclose(s.full(), op_of(basis, v), atol=1e-10):
            raise Violation('modelparams-to-state', what)
        if not np.allclose(basis.state_to_modelparams(s), v, atol=1e-10):
            raise Violation('state-to-modelparams', what)
