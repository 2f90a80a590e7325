"""C15: experiment design keeps the best design found so far for each experiment."""
import warnings

import numpy as np
import qinfer as q
from qinfer.expdesign import OptimizationAlgorithms as OA

from .. import shadow, zoo
from .. import world as W
from ..world import Violation
from . import c02

LEVEL = 'exploration'
RULE = ('A run designs several experiments of one inference, each from several guesses (given as array or by a function), '
        'with and without storing them, under all local optimisers; some calls are cut short by injected failures of the '
        'model.  Designs are compared with the best of the same guesses optimised separately, and their objective with its definition.')
REAL = ['qinfer.expdesign.ExperimentDesigner', 'qinfer.smc.SMCUpdater.bayes_risk', 'scipy.optimize', 'models of the zoo']
STUB = ['experiment costs', 'failures of the model', 'caller-provided guess functions']
STATES = 'hash of (model, optimiser, kind of guess, stored, number of guesses so far, improved or not)'
RUNS = dict(quick=2000, thorough=40000)
CHUNK = 4
NEEDS_OPS = False

ALGOS = ['NULL', 'CG', 'NCG', 'NELDER_MEAD']
B = {'kind': 'binomial', 'base': {'kind': 'precession'}, 'max': 3}
SPECS = [({'kind': 'inversion'}, ['t', 'w_']), ({'kind': 't2'}, ['t']), (B, ['x']), ({'kind': 'sim'}, ['s']),
         ({'kind': 'sim', 'kw': {'varying': True}}, ['s']), ({'kind': 'sim', 'kw': {'n_out': 3}, 'hard': .5}, ['s']),
         ({'kind': 'grw', 'base': {'kind': 't2'}, 'mode': 'dense'}, ['t']), ({'kind': 'sim', 'kw': {'drift': .03}}, ['s'])]


class Costly(q.DerivedModel):
    """Costs that depend on the varied field."""
    def __init__(self, model, field, form):
        super(Costly, self).__init__(model)
        self.field, self.form = field, form

    def likelihood(self, outcomes, modelparams, expparams):
        super(Costly, self).likelihood(outcomes, modelparams, expparams)
        return self.underlying_model.likelihood(outcomes, modelparams, expparams)

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)

    def update_timestep(self, mps, eps):
        return self.underlying_model.update_timestep(mps, eps)

    def experiment_cost(self, eps):
        x = np.asarray(eps[self.field], dtype=float)
        return {'none': 1.0 + 0 * x, 'quad': .5 + .02 * (x - 1) ** 2, 'abs': .1 + .05 * np.abs(x), 'free': .05 * np.maximum(np.abs(x) - 3, 0),
                'refund': .02 * (np.abs(x) - 4)}[self.form]


def generate(rng, i, tier):
    spec, fields = SPECS[i % len(SPECS)]
    setup = zoo.make(spec)
    cfg = dict(model=spec, n=zoo.big(rng, rng.choice([10, 20, 40]), .005), thresh=rng.choice([.3, .5, .9]), field=rng.choice(fields),
               form=rng.choice(['none', 'quad', 'abs', 'free', 'refund']), algo=rng.choice(ALGOS), k=rng.choice([0.0, 1.0, 1.0, .01, 2.5]),
               mult=rng.random() < .4, maxiter=rng.choice([None, 1, 4]), maxfun=rng.choice([None, 1, 6, 20]))
    if cfg['form'] == 'refund':
        cfg['mult'] = False       # (costs below zero have no powers)
    ops = []
    for _ in range(rng.randrange(2, 9)):
        x = rng.random()
        if x < .17:
            ops.append(dict(op='new'))
            if rng.random() < .6:
                ops.append(dict(op='upd', ep=setup.gen(rng), u=round(rng.random(), 6)))
                ops.append(dict(op='new'))
        elif x < .22:
            ops.append(dict(op='spoil'))
        else:
            op = dict(op='guess', ep=setup.gen(rng), how=rng.choice(['array', 'array', 'fn', 'same', 'view']), store=rng.random() < .85)
            if rng.random() < .15:
                op['fail'] = [rng.choice([0, 1, 2, 5]), rng.choice(['error', 'interrupt', 'memory'])]
            ops.append(op)
    return dict(config=cfg, ops=ops, faults=[])


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    wrap = lambda m: Costly(m, c['field'], c['form'])
    u, sh, setup, probe = shadow.build(sc, w, wrap)
    twin = wrap(zoo.make(c['model']).model)
    algo = getattr(OA, c['algo'])
    ed = q.ExperimentDesigner(u, algo)
    f = c['field']
    names = [n for n in u.model.expparams_dtype and np.dtype(u.model.expparams_dtype).names]
    kw = dict(cost_scale_k=c['k'], cost_mult=c['mult'])
    if c['maxiter'] is not None:
        kw['maxiter'] = c['maxiter']
    if c['maxfun'] is not None:
        kw['maxfun'] = c['maxfun']

    def objective(ep):
        vals = twin.domain(ep)[0].values
        L = twin.likelihood(vals, np.array(u.particle_locations), ep)[:, :, 0]
        if np.any(L < -1e-9) or np.any(L > 1 + 1e-9):
            raise W.Abandon('optimiser left the domain of the model')
        r = c02.ref_risk(np.array(u.particle_weights), np.array(u.particle_locations), L, twin.Q)
        k = float(twin.experiment_cost(ep)[0])
        return r * k ** c['k'] if c['mult'] else r + c['k'] * k

    best = None            # (objective, design) since the last reset
    n_stored = 0
    given = []             # designs handed out, with what they were
    same = setup.eps([sc['ops'][0].get('ep') or setup.gen(w.rng)])
    for i, op in enumerate(sc['ops']):
        what = 'call {} of {}, {}'.format(i, c['algo'], op['op'])
        if op['op'] == 'new':
            ed.new_exp()
            best, n_stored = None, 0
            continue
        if op['op'] == 'spoil':
            # The caller may do with returned designs as it likes.
            for g in given:
                g[0][f] = -77.0
                g[1] = g[0].copy()
            continue
        if op['op'] == 'upd':
            ep = setup.eps([op['ep']])
            o = sh.pick(op, ep)
            if o is None:
                continue
            u.update(o, ep)
            probe.events[:] = []
            sh.sync()
            continue
        guess = setup.eps([op['ep']])
        if op['how'] == 'same':
            guess = same
        if op['how'] == 'view':
            # one of a list of candidate experiments
            guess = setup.eps([op['ep']] * 3)[1:2]
        g0 = guess.copy()
        before = shadow.snapshot(u)
        calls = []

        def fn(**k):
            calls.append(k)
            return guess
        # The same guess on its own
        alone = q.ExperimentDesigner(u, algo).design_expparams_field(g0.copy(), f, store_guess=False, **kw)
        o_guess, o_alone = objective(g0), objective(alone)
        if not np.isfinite(o_guess) or not np.isfinite(o_alone):
            raise W.Abandon('objective not finite')
        if o_alone > o_guess + 1e-9 * (1 + abs(o_guess)):
            raise Violation('worse-than-guess', '{}: objective {} of design {}, {} of guess {}'.format(
                what, o_alone, alone, o_guess, g0))
        for n in names:
            if n != f and not np.array_equal(alone[n], g0[n]):
                raise Violation('other-field-varied', '{}: {}'.format(what, n))
        if op.get('fail'):
            probe.arm('likelihood', op['fail'][0], 'before', op['fail'][1])
        probe.raised = None
        try:
            d = ed.design_expparams_field(guess if op['how'] in ('array', 'view') else fn, f, store_guess=op['store'], **kw)
        except (W.SimFault, W.SimInterrupt, MemoryError) as e:
            if e is not probe.raised:
                raise
            probe.disarm()
            if guess.tobytes() != g0.tobytes():
                raise Violation('guess-modified', what + ' (failed)')
            w.state('failed', c['algo'], op['store'], n_stored)
            continue
        if op.get('fail'):
            if probe.raised is not None:
                raise Violation('failure-swallowed', what)
            probe.disarm()
        if guess.tobytes() != g0.tobytes():
            raise Violation('guess-modified', '{}: {} was {}'.format(what, guess, g0))
        bad = shadow.same_snapshot(before, shadow.snapshot(u))
        if bad:
            raise Violation('updater-modified', '{}: {}'.format(what, bad))
        if not isinstance(d, np.ndarray) or d.shape != (1,) or d.dtype != np.dtype(u.model.expparams_dtype):
            raise Violation('malformed-design', '{}: {!r}'.format(what, d))
        if op['how'] not in ('array', 'view'):
            if len(calls) != 1 or sorted(calls[0]) != ['cov', 'idx_exp', 'mean'] or calls[0]['idx_exp'] != len(u.data_record) \
                    or not np.allclose(calls[0]['mean'], u.est_mean()) or not np.allclose(calls[0]['cov'], u.est_covariance_mtx()):
                raise Violation('guess-function-arguments', what)
        for g in given:
            if g[0].tobytes() != g[1].tobytes():
                raise Violation('earlier-design-changed', what)
            if g[0] is d or np.shares_memory(g[0], d):
                raise Violation('designs-share-memory', what)
        if np.shares_memory(d, guess):
            raise Violation('design-is-the-guess', what)
        improved = None
        if not op['store']:
            if d.tobytes() != alone.tobytes():
                raise Violation('not-the-optimised-guess', '{}: {} expected {}'.format(what, d, alone))
        else:
            tol = 0 if best is None else 1e-9 * (1 + abs(best[0]))
            if best is None or o_alone < best[0] - tol:
                expect, improved = [alone], True
            elif o_alone > best[0] + tol:
                expect, improved = [best[1]], False
            else:
                expect = [best[1], alone]
            if not any(d.tobytes() == e.tobytes() for e in expect):
                raise Violation('not-the-best-so-far' if best is not None else 'not-the-optimised-guess',
                                '{}: returned {} with objective {}, expected {} with objective {}; this guess alone {} ({})'.format(
                                    what, d, objective(d), expect[0], objective(expect[0]), alone, o_alone))
            if best is None or improved or d.tobytes() == alone.tobytes():
                best = (o_alone, alone)
            n_stored += 1
        given.append([d, d.copy()])
        w.log(what, d)
        w.state(str(c['model']), c['algo'], op['how'], op['store'], n_stored, improved)
        w.notes['designs'] += 1
