"""C09: multi-trial performance tests isolate trials and report exactly the failures."""
import random
import warnings

import numpy as np
import qinfer as q

from .. import zoo
from .. import world as W
from ..world import Violation
from . import c10

LEVEL = 'exploration'
RULE = ('A run is a multi-trial performance test whose trials are executed by a simulated asynchronous pool in a seeded '
        'order (some while others are still being dispatched), with failing trials, lost results, interrupts, failing '
        'dispatch and failing progress displays, under a random NumPy error policy; compared with the trials run alone.')
REAL = ['qinfer.perf_testing', 'qinfer.smc.SMCUpdater', 'models of the zoo', 'numpy error policy']
STUB = ['pool executing the trials', 'progress display', 'clock', 'random source', 'experiment heuristic (scripted)']
STATES = 'order of execution and failures per trial; hash of (model pair, failures, progress, outcome of the call)'
RUNS = dict(quick=4000, thorough=150000)
CHUNK = 8

PAIRS = c10.PAIRS
KINDS = ['error', 'error', 'divide', 'divide', 'value', 'float', 'runtime', 'index', 'memory', 'stop', 'lost', 'assert']
STOPS = ['interrupt', 'exit', 'dispatch', 'dispatch-interrupt', 'p-start', 'p-update', 'p-update-interrupt', 'p-describe', 'p-finished', 'p-init']


def generate(rng, i, tier):
    est, true = rng.choice(PAIRS)
    n_trials = zoo.big(rng, rng.choice([0, 1, 1, 2, 3, 4, 6, 9]), .03, (11, 20, 130))
    n_exp = zoo.big(rng, rng.choice([1, 2, 2, 3, 4]), .01, (20, 130)) if n_trials < 20 else 1
    setup = zoo.make(est)
    c = dict(est=est, true=true, n=rng.choice([5, 10, 20]), n_trials=n_trials, n_exp=n_exp,
             pool=rng.choice(['eager', 'lazy', 'mixed', 'mixed', 'default', 'serial']),
             allow=rng.random() < .6, progress=rng.choice([None, None, 'plain', 'described']),
             policy={k: rng.choice(['ignore', 'warn', 'raise', 'ignore']) for k in ('divide', 'over', 'under', 'invalid')},
             mps=rng.choice(['prior', 'prior', 'row', 'true_prior']),
             upd=rng.choice([None, None, dict(resample_thresh=0.9), dict(zero_weight_policy='ignore'), dict(zero_weight_thresh=1e-3)]),
             order=rng.randrange(1 << 30))
    if rng.random() < .8:      # otherwise natural underflows in a trial are failures
        c['policy']['under'] = c['policy']['over'] = c['policy']['invalid'] = 'ignore'
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 8])):
        if n_trials:
            faults.append(dict(trial=rng.randrange(n_trials), exp=rng.randrange(n_exp), kind=rng.choice(KINDS),
                               where=rng.choice(['heuristic', 'heuristic', 'simulate', 'init', 'update'])))
    if rng.random() < .25:
        k = rng.choice(STOPS)
        faults.append(dict(trial=rng.randrange(max(n_trials, 1)), exp=0, kind=k, where='heuristic'))
    return dict(config=c, ops=[dict(ep=setup.gen(rng)) for _ in range(n_exp)], faults=faults)


NEEDS_OPS = True
EXC = dict(error=W.SimFault, value=ValueError, float=FloatingPointError, runtime=RuntimeError, index=IndexError,
           memory=MemoryError, stop=StopIteration, interrupt=W.SimInterrupt, exit=SystemExit, lost=TimeoutError)
EXC['assert'] = AssertionError


class Ctx(object):
    trial = None


def fail(w, kind, trial):
    w.fault('trial: ' + kind)
    if kind == 'divide':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            np.ones(3) / np.zeros(3)
        return          # only counts under divide='raise'
    raise EXC[kind]('trial {}'.format(trial))


def make(sc, w, ctx, faults):
    """Models, heuristic class and perf_test arguments; all fresh."""
    c = sc['config']
    est = zoo.make(c['est'])
    true = zoo.make(c['true']) if c['true'] else est
    eps = [est.eps([op['ep']]) for op in sc['ops']]

    def at(where, k):
        for f in faults:
            if f['trial'] == ctx.trial and f['where'] == where and (where == 'init' or f['exp'] == k) and \
                    f['kind'] in EXC or f['kind'] == 'divide' and f['trial'] == ctx.trial and f['where'] == where and \
                    (where == 'init' or f['exp'] == k):
                if f['kind'] != 'lost':
                    fail(w, f['kind'], ctx.trial)
    count = {}

    class Sim(type(true.model)):
        def simulate_experiment(self, *a, **k):
            count['sim'] = count.get('sim', -1) + 1
            at('simulate', count['sim'])
            w.advance(0.5)
            return super(Sim, self).simulate_experiment(*a, **k)

        def update_timestep(self, mps, e):
            if mps.shape[0] > 1:
                count['upd'] = count.get('upd', -1) + 1
                at('update', count['upd'])
                w.advance(0.125 * (1 + count['upd']))
            return super(Sim, self).update_timestep(mps, e)

    class Est(type(est.model)):
        def update_timestep(self, mps, e):
            if mps.shape[0] > 1:
                count['upd'] = count.get('upd', -1) + 1
                at('update', count['upd'])
                w.advance(0.125 * (1 + count['upd']))
            return super(Est, self).update_timestep(mps, e)
    Sim.__name__ = Est.__name__ = type(est.model).__name__
    true.model.__class__ = Sim
    if true is not est:
        est.model.__class__ = Est

    class Heur(object):
        def __init__(self, u):
            count.clear()
            self.k = 0
            at('init', 0)

        def __call__(self):
            k = self.k
            self.k += 1
            at('heuristic', k)
            w.advance(0.25)
            return eps[k]
    kw = {}
    if c['true']:
        kw['true_model'] = true.model
        kw['true_prior'] = true.prior
    if c['mps'] == 'true_prior':
        kw['true_prior'] = zoo.FixedPrior(true.prior.sample(3)[1:2])
    if c['mps'] == 'row':
        kw['true_mps'] = true.prior.sample(1)
    if c['upd']:
        kw['extra_updater_args'] = c['upd']
    return (est.model, c['n'], est.prior, len(sc['ops']), Heur), kw


class Pool(object):
    """Executes trials in an order of its own; results are fetched by get()."""
    def __init__(self, sc, w, ctx):
        self.sc, self.w, self.ctx = sc, w, ctx
        self.rng = random.Random(sc['config']['order'])
        self.tasks, self.done, self.order = [], {}, []
        self.mode = sc['config']['pool']
        self.bad = [f for f in sc['faults'] if f['kind'] in ('dispatch', 'dispatch-interrupt')]

    def seed(self, i):
        np.random.seed(W.derive('trial', self.sc['seed'], i) % 2 ** 32)
        self.w.clock = self.w.clock0 + 1000.0 * (i + 1)

    def execute(self, i):
        keep = self.ctx.trial
        self.ctx.trial = i
        self.seed(i)
        self.order.append(i)
        try:
            if self.mode == 'eager':        # really elsewhere: knows nothing of the caller's policy
                with np.errstate(**dict(self.sc['config']['policy'], divide='raise')):
                    self.done[i] = ('ok', self.tasks[i]())
            else:
                self.done[i] = ('ok', self.tasks[i]())
        except BaseException as e:
            self.done[i] = ('failed', e)
        finally:
            self.ctx.trial = keep

    def apply(self, fn):
        i = len(self.tasks)
        for f in self.bad:
            if f['trial'] == i:
                self.w.fault(f['kind'])
                raise (KeyboardInterrupt if 'interrupt' in f['kind'] else OSError)('dispatch')
        self.tasks.append(fn)
        if self.mode in ('eager', 'mixed'):
            for j in range(i + 1):
                if j not in self.done and self.rng.random() < (.5 if self.mode == 'mixed' else .8):
                    self.execute(j)
        return Result(self, i)


class Result(object):
    def __init__(self, pool, i):
        self.pool, self.i = pool, i

    def get(self):
        p = self.pool
        if self.i not in p.done:
            rest = [j for j in range(len(p.tasks)) if j not in p.done and j != self.i]
            p.rng.shuffle(rest)
            for j in rest[:p.rng.randrange(len(rest) + 1)]:
                p.execute(j)
            p.execute(self.i)
        for f in p.sc['faults']:
            if f['trial'] == self.i and f['kind'] == 'lost':
                p.w.fault('result lost')
                raise TimeoutError('trial {}'.format(self.i))
        kind, v = p.done[self.i]
        if kind == 'failed':
            raise v
        return v


def progress(sc, w, log):
    c = sc['config']
    kinds = {f['kind']: f['trial'] for f in sc['faults'] if f['kind'].startswith('p-')}

    class Bar(object):
        def __init__(self):
            self.n = 0
            if 'p-init' in kinds:
                w.fault('p-init')
                raise OSError('p-init')

        def start(self, n):
            log.append('start')
            if 'p-start' in kinds:
                w.fault('p-start')
                raise OSError('p-start')

        def update(self, k):
            log.append('update')
            self.n += 1
            if kinds.get('p-update', 10 ** 9) < self.n:
                w.fault('p-update')
                raise OSError('p-update')
            if kinds.get('p-update-interrupt', 10 ** 9) < self.n:
                w.fault('p-update-interrupt')
                raise W.SimInterrupt('p-update-interrupt')

        def finished(self):
            log.append('finished')
            if 'p-finished' in kinds:
                w.fault('p-finished')
                raise OSError('p-finished')
    if c['progress'] == 'described':
        class Described(Bar):
            _d = ''

            @property
            def description(self):
                return self._d

            @description.setter
            def description(self, v):
                if 'p-describe' in kinds:
                    w.fault('p-describe')
                    raise OSError('p-describe')
                self._d = v
        return Described
    return Bar


def execute(sc, w):
    warnings.simplefilter('ignore')
    c = sc['config']
    sc = dict(sc, faults=[f for f in sc['faults']
                          if not (c['pool'] in ('default', 'serial') and f['kind'] in ('dispatch', 'dispatch-interrupt', 'lost'))
                          and f['exp'] < len(sc['ops'])])
    if c['progress'] is None:
        sc['faults'] = [f for f in sc['faults'] if not f['kind'].startswith('p-')]
    ctx = Ctx()
    # -- reference: every trial alone
    rs = np.random.get_state()
    args, kw = make(sc, w, ctx, sc['faults'])
    start = np.random.get_state()
    pool = Pool(sc, w, ctx)
    expected = []
    old = np.seterr(**c['policy'])
    try:
        with np.errstate(divide='raise'):
            for i in range(c['n_trials']):
                ctx.trial = i
                if c['pool'] not in ('default', 'serial'):
                    pool.seed(i)
                try:
                    r = ('ok', q.perf_test(*args, **kw))
                except BaseException as e:
                    if isinstance(e, (W.NoProgress,)) or type(e).__name__ == 'Hang':
                        raise
                    r = ('failed', e)
                if any(f['trial'] == i and f['kind'] == 'lost' for f in sc['faults']):
                    r = ('failed', TimeoutError('trial {}'.format(i)))
                expected.append(r)
    finally:
        np.seterr(**old)
        ctx.trial = None
    # -- the test itself
    np.random.set_state(rs)
    w.clock = w.clock0
    args, kw = make(sc, w, ctx, sc['faults'])
    log = []
    if c['progress']:
        kw['progressbar'] = progress(sc, w, log)
    if c['allow'] or c['order'] % 2:
        kw['allow_failures'] = c['allow']
    pool = Pool(sc, w, ctx)
    serial = c['pool'] in ('default', 'serial')
    if serial:
        if c['pool'] == 'serial':
            kw['apply'] = q.perf_testing.apply_serial
        # Counts trials by the heuristics constructed.
        H = args[4]
        ctx.trial = -1

        class Counting(H):
            def __init__(self, u):
                ctx.trial += 1
                H.__init__(self, u)
        args = args[:4] + (Counting,)
    else:
        kw['apply'] = pool.apply
    np.seterr(**c['policy'])
    before = np.geterr()
    try:
        try:
            perf, exc = q.perf_test_multiple(c['n_trials'], *args, **kw), None
        except BaseException as e:
            if isinstance(e, (W.NoProgress,)) or type(e).__name__ == 'Hang':
                raise
            perf, exc = None, e
        after = np.geterr()
    finally:
        np.seterr(**old)
    what = '{} trials, {}'.format(c['n_trials'], type(exc).__name__)
    w.log(pool.order, type(exc).__name__, str(exc)[:40])
    w.state('order', tuple(pool.order), tuple(i for i, e in enumerate(expected) if e[0] == 'failed'))
    w.state(str(c['est']), str(c['true']), tuple(e[0] for e in expected), type(exc).__name__, c['allow'], c['progress'])
    if after != before:
        raise Violation('numpy-policy-not-restored', '{}: {} was {}'.format(what, after, before))
    pk = {f['kind'] for f in sc['faults'] if f['kind'].startswith('p-')}
    if c['progress'] == 'plain':
        pk.discard('p-describe')
    if 'start' in log and 'p-start' not in pk:
        if log.count('finished') != 1 or log[-1] != 'finished':
            raise Violation('progress-not-finished', '{}: {}'.format(what, log))
    # -- which exception is due?
    stop = None         # (kind, must be raised)
    failed = [i for i, e in enumerate(expected) if e[0] == 'failed']
    disp = [f for f in sc['faults'] if f['kind'] in ('dispatch', 'dispatch-interrupt') and f['trial'] < c['n_trials']]
    hard = [i for i in failed if not isinstance(expected[i][1], Exception)]
    soft = [i for i in failed if i not in hard]
    if disp or pk:
        # The order in which these are met is not specified; the rest has been checked above.
        if disp and exc is None:
            raise Violation('dispatch-error-swallowed', what)
        if exc is not None or disp:
            return
    if hard and (c['allow'] or hard[0] == failed[0]):
        stop = hard[0]
    elif soft and not c['allow']:
        stop = failed[0]
    if stop is not None:
        e = expected[stop][1]
        if exc is None:
            raise Violation('failure-not-propagated', '{}: trial {} failed with {!r}'.format(what, stop, e))
        if type(exc) is not type(e) or str(exc) != str(e):
            raise Violation('wrong-exception', '{}: raised {!r}, but trial {} failed first with {!r}'.format(what, exc, stop, e))
        return
    if exc is not None:
        if isinstance(exc, Exception):
            raise exc
        raise Violation('unexpected-interrupt', repr(exc))
    # -- the rows
    if perf.shape != (c['n_trials'], len(sc['ops'])):
        raise Violation('shape', str(perf.shape))
    mask = np.ma.getmaskarray(perf)
    data = np.ma.getdata(perf)
    for i, (kind, r) in enumerate(expected):
        flags = [np.array(mask[i][n]) for n in mask.dtype.names]
        if kind == 'failed':
            if not all(np.all(f) for f in flags):
                raise Violation('failed-trial-not-masked', '{}: row {} ({!r})'.format(what, i, r))
            continue
        if any(np.any(f) for f in flags):
            raise Violation('successful-trial-masked', '{}: row {}'.format(what, i))
        if data.dtype.names != r.dtype.names:
            raise Violation('fields', '{} {}'.format(data.dtype.names, r.dtype.names))
        for n in r.dtype.names:
            if not np.array_equal(data[i][n], r[n], equal_nan=data[i][n].dtype.kind == 'f'):
                raise Violation('row-not-its-trial', '{}: row {}, field {}: {} expected {}'.format(
                    what, i, n, data[i][n], r[n]))
        w.log(i, [np.array(data[i][n]) for n in r.dtype.names])
    if serial and ctx.trial + 1 < c['n_trials']:
        raise Violation('trials-missing', '{} of {}'.format(ctx.trial + 1, c['n_trials']))
    if not serial and sorted(pool.order) != list(range(c['n_trials'])):
        raise Violation('trials-executed', '{} of {}'.format(sorted(pool.order), c['n_trials']))
