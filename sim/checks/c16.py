"""C16: heuristics always propose well-formed experiments from the current posterior."""
import warnings

import numpy as np
import qinfer as q

from .. import shadow, stats, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run asks heuristics for experiments at the posteriors along one history of updates, failed updates, resamplings '
        'and resets, including posteriors concentrated on one or few points, under a random source with extreme values, and '
        'tests the frequencies of choices in larger samples.')
REAL = ['qinfer.expdesign (PGH, ExpSparseHeuristic, EnsembleHeuristic)', 'qinfer.smc', 'qinfer.distributions', 'models of the zoo']
STUB = ['random source incl. extreme values', 'uninitialised memory', 'model failures', 'member heuristics of some ensembles']
STATES = 'hash of (model, operation, number of distinct particles, data so far, outcome)'
RUNS = dict(quick=4000, thorough=120000)
CHUNK = 8
NEEDS_OPS = False


class Weird(zoo.SimModel):
    """Several fields; the second parameter does not contribute to distances (or little)."""
    def __init__(self, q2):
        super(Weird, self).__init__()
        self._Q = np.array([1.0, q2])

    @property
    def expparams_dtype(self):
        return [('k', 'int'), ('s', 'float'), ('x_', 'float', (2,)), ('t', 'float'), ('on', 'bool'), ('w', 'float')]


def _weird(spec):
    def eps(model, raws):
        out = np.zeros((len(raws),), dtype=model.expparams_dtype)
        for i, r in enumerate(raws):
            out['k'][i], out['s'][i] = r
        return out
    m = Weird(spec['q2'])
    return zoo.Setup(m, zoo.BoxPrior([[-.9, .9], [-.9, .9]]), eps, lambda rng: [rng.randrange(6), zoo._r(rng, .1, 1.5)],
                     lambda os, mps, e: Weird(spec['q2']).likelihood(os, mps, e), {'finite', 'sim'})


zoo.KINDS['weird'] = _weird
SPECS = [{'kind': 'inversion'}, {'kind': 'weird', 'q2': 0.0}, {'kind': 'weird', 'q2': .25}, {'kind': 'precession'}, {'kind': 't2'},
         {'kind': 'rb'}, {'kind': 'binomial', 'base': {'kind': 'precession'}}, {'kind': 'inversion'},
         {'kind': 'randomwalk', 'base': {'kind': 'inversion'}}]


def generate(rng, i, tier):
    spec = SPECS[i % len(SPECS)]
    setup = zoo.make(spec)
    cfg = dict(model=spec, n=zoo.big(rng, rng.choice([1, 2, 3, 8, 20, 50])), thresh=rng.choice([0.0, .3, .5, .9]), canonicalize=rng.random() < .8,
               lw=dict(a=rng.choice([.98, .9, .5])), p=rng.choice([0.0, 0.0, .3, 1.0]))
    if rng.random() < .4:
        # few distinct points
        s = setup.prior
        k = rng.choice([1, 1, 2, 3])
        r = s.box
        pts = [[round(a + (b - a) * rng.random(), 3) for a, b in r] for _ in range(k)]
        if rng.random() < .3:
            # distinct points at no distance, for some scales
            pts = [[pts[0][0]] + [round(rng.uniform(a, b), 3) for a, b in r[1:]] for _ in range(max(2, k))]
        cfg['prior'] = pts
        cfg['thresh'] = 0.0
    ops = []
    if spec['kind'] == 'weird':
        cfg['kw'] = dict(zero_weight_policy=rng.choice(['skip', 'skip', 'reset']))
    for _ in range(rng.randrange(2, 10)):
        x = rng.random()
        if x < .1 and spec['kind'] == 'weird':
            ops.append(dict(op='imp', ep=[rng.randrange(6), -rng.choice([1.0, 1.3])]))
        elif x < .35:
            op = dict(op='upd', ep=setup.gen(rng), u=round(rng.random(), 6))
            if rng.random() < .2:
                op['fail'] = rng.choice(['likelihood', 'update_timestep'])
            ops.append(op)
        elif x < .4:
            ops.append(dict(op='resample'))
        elif x < .45:
            ops.append(dict(op='reset'))
        elif x < .65:
            ops.append(dict(op='pgh', n=rng.choice([1, 1, 3, 400]), maxiters=rng.choice([1, 2, 3, 10]), other=rng.randrange(100),
                            inv=rng.choice(['identity', 'fn']), tf=rng.choice(['identity', 'fn'])))
        elif x < .85:
            ops.append(dict(op='sparse', scale=rng.choice([1, .5, 3, .01]), base=rng.choice([9 / 8, 2, 1.01, .5]), other=rng.randrange(100)))
        else:
            ops.append(dict(op='ensemble', n=rng.choice([1, 5, 300, 300, 4000]), pr=rng.choice([[1.0], [.5, .5], [.2, .3, .5], [0.0, 1.0], [.9, .1], [.25, 0.0, .75]]),
                            real=rng.random() < .3, nest=rng.random() < .2))
    if rng.random() < .1:
        at = rng.randrange(len(ops) + 1)
        ops[at:at] = [dict(op='many', n=rng.choice([31, 32, 63, 64, 70, 130]), ep=setup.gen(rng), u=round(rng.random(), 6)),
                      dict(op='sparse', scale=rng.choice([1, 3, .5]), base=rng.choice([2, 2, 3, 9 / 8]), other=rng.randrange(100))]
    return dict(config=cfg, ops=ops, faults=[])


def double_first(x):
    return 2 * x[..., :1]


def double(x):
    return 2 * x


def root(t):
    return np.sqrt(t)


def others(model, exclude, seed):
    """Values for all fields but the excluded ones."""
    dt = np.dtype(model.expparams_dtype)
    out = {}
    for k, name in enumerate(dt.names or ()):
        if name in exclude:
            continue
        t = dt[name]
        base = t.subdtype[0] if t.subdtype else t
        v = (seed * 7 + k * 3) % 11 + 1
        if base.kind == 'b':
            out[name] = bool(v % 2)
        elif base.kind in 'iu':
            out[name] = int(v)
        else:
            out[name] = v / 4.0
        if t.subdtype:
            out[name] = np.arange(t.shape[0]) + out[name]
    return out


class Member(q.Heuristic):
    def __init__(self, tag, log):
        self.tag, self.log = tag, log

    def __call__(self, *a):
        self.log.append((self.tag, a))
        return np.array([(self.tag, len(self.log))], dtype=[('tag', int), ('n', int)])


def well_formed(what, model, e):
    if not isinstance(e, np.ndarray) or e.shape != (1,) or e.dtype != np.dtype(model.expparams_dtype):
        raise Violation('malformed-experiment', '{}: {!r}'.format(what, e))


def check_others(what, e, other):
    for n, v in other.items():
        if not np.array_equal(np.asarray(e[n][0]), np.asarray(v)):
            raise Violation('other-field', '{}: {} is {} instead of {}'.format(what, n, e[n][0], v))


def do_pgh(u, op, w, what, twin):
    m = u.model
    dt = np.dtype(m.expparams_dtype)
    if not dt.names:
        return
    floats = [n for n in dt.names if dt[n].base.kind == 'f']
    vec = [n for n in floats if dt[n].shape and dt[n].shape[0] == m.n_modelparams]
    flat = [n for n in floats if not dt[n].shape]
    if op['inv'] == 'identity' and vec:
        inv, fn, fnr = vec[0], {}, lambda x: x
    elif op['inv'] == 'identity' and m.n_modelparams == 1 and len(flat) > 1:
        inv, fn, fnr = flat[1], {}, lambda x: x
    elif vec:
        inv, fn, fnr = vec[0], dict(inv_func=double), double
    elif len(flat) > 1:
        inv, fn, fnr = flat[1], dict(inv_func=double_first), double_first
    else:
        return
    tf = flat[0]
    if tf == inv:
        return
    tr = lambda t: t
    if op['tf'] == 'fn':
        fn['t_func'] = root
        tr = root
    other = others(m, (inv, tf), op['other'])
    h = q.PGH(u, inv_field=inv, t_field=tf, maxiters=op['maxiters'], other_fields=other or None, **fn)
    x, wt = np.array(u.particle_locations), np.array(u.particle_weights)
    D = np.abs((x[:, None] - x[None]) * twin.Q).sum(axis=2)
    alive = wt > 0
    pair = wt[:, None] * wt[None] * (D > 0)
    pd = pair.sum()
    counts, gave_up, n = np.zeros(len(wt)), 0, op['n'] if not w.extreme_p else min(op['n'], 3)
    groups = {}
    for k in range(len(wt)):
        groups.setdefault(fnr(x[k]).tobytes(), []).append(k)
    hits = dict.fromkeys(groups, 0)
    for _ in range(n):
        before = shadow.snapshot(u)
        try:
            with np.errstate(divide='raise'):
                e = h()
        except RuntimeError as ex:
            if 'iterations' not in str(ex) and 'distinct' not in str(ex):
                raise
            gave_up += 1
            continue
        bad = shadow.same_snapshot(before, shadow.snapshot(u))
        if bad:
            raise Violation('updater-modified', what)
        if not pd > 0:
            raise Violation('proposal-without-distinct-particles', '{}: {}'.format(what, e))
        well_formed(what, m, e)
        check_others(what, e, other)
        key = np.asarray(e[inv][0], dtype=float).reshape(-1).tobytes()
        if key not in groups:
            raise Violation('inversion-is-no-particle', '{}: {}'.format(what, e))
        t = float(e[tf][0])
        ks = [k for k in groups[key] if alive[k]]
        ok = False
        for k in ks:
            d = D[k][alive & (D[k] > 0)]
            if len(d) and np.any(np.abs(tr(1 / d) - t) <= 1e-9 * abs(t)):
                ok = True
        if not ok:
            raise Violation('time-is-no-inverse-distance', '{}: {} at weight {}'.format(what, e, [wt[k] for k in groups[key]]))
        hits[key] += 1
        w.log(e)
    fail = (1 - pd) ** op['maxiters'] if pd < 1 else 0.0
    if not w.extreme_p:
        if n > 100:
            for key, ks in groups.items():
                if pd <= 0:
                    break
                p = pair[ks].sum() / pd
                if not stats.binom_ok(hits[key], n - gave_up, min(1.0, p)):
                    raise Violation('inversion-frequency', '{}: {} of {} at probability {}'.format(what, hits[key], n - gave_up, p))
            if not stats.binom_ok(gave_up, n, min(max(fail, 0.0), 1.0)):
                raise Violation('attempts', '{}: gave up {} of {} times, expected {} with {} attempts at probability {}'.format(
                    what, gave_up, n, fail, op['maxiters'], pd))
    w.state('pgh', len(groups), gave_up > 0, op['maxiters'], len(other))
    w.notes['pgh proposals'] += n - gave_up
    w.notes['pgh gave up'] += gave_up


def do_sparse(u, op, w, what, n_data):
    m = u.model
    dt = np.dtype(m.expparams_dtype)
    t = op['scale'] * op['base'] ** n_data
    if not dt.names:
        e = q.ExpSparseHeuristic(u, scale=op['scale'], base=op['base'])()
        well_formed(what, m, e)
        got, want = e[0], np.array([t]).astype(dt)[0]
    else:
        fl = [n for n in dt.names if not dt[n].shape and dt[n].kind in 'fiu' and n not in ('n_meas',)]
        f = fl[op['other'] % len(fl)]
        if dt[f].kind != 'f' and t >= 2.0 ** 31:
            return
        other = others(m, (f,), op['other'])
        h = q.ExpSparseHeuristic(u, scale=op['scale'], base=op['base'], t_field=f, other_fields=other or None)
        e = h()
        well_formed(what, m, e)
        check_others(what, e, other)
        e2 = h()
        if e2.tobytes() != e.tobytes() or np.shares_memory(e, e2):
            raise Violation('proposals-share-memory', what)
        got, want = e[f][0], np.array([t]).astype(dt[f])[0]
    if abs(float(got) - float(want)) > 1e-9 * abs(float(want)):
        raise Violation('sparse-time', '{}: {} expected {} after {} data'.format(what, got, want, n_data))
    w.log(e)
    w.state('sparse', n_data, op['base'], str(dt))


def do_ensemble(u, op, w, what):
    log = []
    pr = op['pr']
    mem = [Member(k, log) for k in range(len(pr))]
    ens = q.EnsembleHeuristic(list(zip(mem, pr)))
    p = list(pr)
    if op['nest']:
        extra = Member(len(pr), log)
        ens = q.EnsembleHeuristic([(ens, .5), (extra, .5)])
        p = [.5 * a for a in pr] + [.5]
    n = op['n'] if not w.extreme_p else min(op['n'], 5)
    for k in range(n):
        args = () if k % 2 else (k, 'x')
        e = ens(*args)
        if len(log) != k + 1:
            raise Violation('members-called', '{}: {} members called in proposal {}'.format(what, len(log) - k, k))
        if e.tobytes() != np.array([(log[-1][0], k + 1)], dtype=e.dtype).tobytes():
            raise Violation('not-the-members-proposal', '{}: {}'.format(what, e))
        if log[-1][1] != args:
            raise Violation('arguments-lost', what)
        if p[log[-1][0]] == 0:
            raise Violation('impossible-member', what)
    if n > 100 and not w.extreme_p:
        ok, msg = stats.counts_ok([sum(1 for t, _ in log if t == k) for k in range(len(p))], p)
        if not ok:
            raise Violation('member-frequency', '{}: {}'.format(what, msg))
        seq = [float(t) for t, _ in log]
        if len(set(seq)) > 1:
            x = np.array(seq) - np.dot(p, range(len(p)))
            z = np.dot(x[1:], x[:-1]) / (np.sqrt(n) * np.dot((np.arange(len(p)) - np.dot(p, range(len(p)))) ** 2, p))
            if abs(z) > 9:
                raise Violation('members-not-independent', '{}: z = {}'.format(what, z))
            # the same member twice in succession; of disjoint pairs
            same = sum(1 for a, b in zip(seq[::2], seq[1::2]) if a == b)
            if not stats.binom_ok(same, len(seq) // 2, float(np.dot(p, p))):
                raise Violation('members-not-independent', '{}: {} of {} pairs equal'.format(what, same, len(seq) // 2))
    w.log(what, [t for t, _ in log])
    w.state('ensemble', p, n)


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    u, sh, setup, probe = shadow.build(sc, w)
    twin = zoo.make(c['model']).model
    n_data = 0
    for k, op in enumerate(sc['ops']):
        what = 'op {} ({})'.format(k, op['op'])
        w.extreme_p = 0.0
        if op['op'] == 'upd':
            ep = setup.eps([op['ep']])
            sh.sync()
            o = sh.pick(op, ep)
            if o is None:
                continue
            if op.get('fail'):
                probe.arm(op['fail'])
                try:
                    u.update(o, ep)
                except W.SimFault:
                    probe.disarm()
                    continue
                raise Violation('failure-swallowed', what)
            u.update(o, ep)
            n_data += 1
            continue
        if op['op'] == 'imp':
            # a datum that the policy discards has been taken all the same
            ep = setup.eps([op['ep']])
            sh.sync()
            if np.sum(sh.L(0, ep)) == 0:
                u.update(0, ep)
                n_data += 1
                w.fault('impossible datum')
            continue
        if op['op'] == 'many':
            ep = setup.eps([op['ep']])
            for _ in range(op['n']):
                sh.sync()
                o = sh.pick(op, ep)
                if o is None:
                    break
                u.update(o, ep)
                n_data += 1
            continue
        if op['op'] == 'resample':
            u.resample()
            continue
        if op['op'] == 'reset':
            u.reset()
            continue
        w.extreme_p = c['p']
        probe.on = False
        if op['op'] == 'pgh':
            do_pgh(u, op, w, what, twin)
        elif op['op'] == 'sparse':
            do_sparse(u, op, w, what, n_data)
        else:
            do_ensemble(u, op, w, what)
        probe.on = True
