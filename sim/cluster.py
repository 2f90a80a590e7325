"""A simulated ipyparallel cluster.

Tasks are partitioned like ipyparallel's block mapping does, serialised with
ipyparallel's own code, executed one after another in a seeded completion order
on "engines" that have a random state and a namespace of their own, and their
results are serialised back.  Faults: task errors, engine crashes before or after
doing the work, lost or empty results, stragglers, engines joining or leaving at any
moment at which the client looks at the cluster, failing housekeeping calls.
"""
import pickle

import numpy as np
import qinfer as q
import ipyparallel as ipp
from ipyparallel import error as ipe
from ipyparallel.client.map import Map
from ipyparallel.serialize import (pack_apply_message, unpack_apply_message,
                                   serialize_object, deserialize_object)

from . import world as W

LOG = []                     # (engine, method, particles, outcomes or None, experiments, repeat)
ENGINE = [None]
TASK = [None]


class LoggedModel(q.DerivedModel):
    """Logs, in this process, what is evaluated on which engine."""
    def likelihood(self, outcomes, modelparams, expparams):
        super(LoggedModel, self).likelihood(outcomes, modelparams, expparams)
        LOG.append((ENGINE[0], TASK[0], 'L', np.array(modelparams), np.array(outcomes), np.array(expparams)))
        return self.underlying_model.likelihood(outcomes, modelparams, expparams)

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        super(LoggedModel, self).simulate_experiment(modelparams, expparams, repeat)
        LOG.append((ENGINE[0], TASK[0], 'S', np.array(modelparams), repeat, np.array(expparams)))
        return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)


class TagModel(q.Simulatable):
    """Simulated data identify repetition-independent particle and experiment."""
    n_modelparams = 2
    is_n_outcomes_constant = True

    @property
    def expparams_dtype(self):
        return [('k', 'int')]

    def n_outcomes(self, eps):
        return 1000000

    def domain(self, eps):
        d = q.IntegerDomain(min=0, max=999999)
        return d if eps is None else [d] * len(eps)

    def are_models_valid(self, mps):
        return np.ones(len(mps), dtype=bool)

    @staticmethod
    def tag(mps, eps):
        return (mps[:, :1].astype(int) * 1000 + eps['k'][None, :])

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        super(TagModel, self).simulate_experiment(modelparams, expparams, repeat)
        t = self.tag(modelparams, expparams)
        out = np.repeat(t[None], repeat, axis=0)
        return out[0, 0, 0] if out.size == 1 else out


class Engine(object):
    def __init__(self, ident):
        self.id = ident
        self.alive = True
        self.state = np.random.RandomState(W.derive('engine', ident) % 2 ** 32).get_state()
        self.done = 0


class Client(object):
    def __init__(self, view):
        self.view = view

    def purge_everything(self):
        self.view._housekeeping('purge_everything')


class SimDirectView(object):
    """The part of ipyparallel.DirectView that QInfer uses."""
    def __init__(self, w, n, plan=(), lazy=True, spread=1.0):
        self.w = w
        self.engines = [Engine(i) for i in range(n)]
        self.lazy = lazy                   # targets == 'all'
        self.plan = list(plan)             # dicts: at (event number), kind, ...
        self.events = 0
        self.tasks = 0
        self.maps = 0
        self.spread = spread
        self.client = Client(self)
        self.block = False
        self._results = {}
        self.housekeeping_fault = None
        self.purged = 0

    # -- what happens when the client looks at the cluster -------------------
    def _tick(self, what):
        self.w.step()
        n = self.events
        self.events += 1
        for p in list(self.plan):
            if p.get('at') == n and p['kind'] in ('join', 'leave'):
                self.plan.remove(p)
                if p['kind'] == 'join':
                    self.join()
                else:
                    self.leave(p.get('who', 0))
        self.w.log('cluster', what, len(self.alive))

    @property
    def alive(self):
        return [e for e in self.engines if e.alive]

    def join(self):
        self.engines.append(Engine(len(self.engines)))
        self.w.fault('engine joins')

    def leave(self, who=0):
        a = self.alive
        if a:
            a[who % len(a)].alive = False
            self.w.fault('engine leaves')

    def __len__(self):
        self._tick('len')
        return len(self.alive)

    @property
    def targets(self):
        self._tick('targets')
        return [e.id for e in self.alive]

    # -- housekeeping -----------------------------------------------------
    def _housekeeping(self, name):
        self.w.step()
        if self.housekeeping_fault == name:
            self.w.fault('{} fails'.format(name))
            raise ipe.EngineError('injected: ' + name)
        if name == 'purge_everything':
            self.purged += 1
        if name != 'results':
            self._results.clear()

    @property
    def results(self):
        self._housekeeping('results')
        return self._results

    def purge_results(self, jobs=[], targets=[]):
        self._housekeeping('purge_results')

    # -- work ----------------------------------------------------------------
    def map_sync(self, f, *seqs, **kw):
        return self.map(f, *seqs, block=True)

    def map_async(self, f, *seqs, **kw):
        return self.map(f, *seqs, block=False)

    def apply_sync(self, f, *args, **kw):
        raise NotImplementedError

    def map(self, f, *seqs, **kw):
        self._tick('map')
        block = kw.get('block', self.block)
        seqs = [s if hasattr(s, '__len__') else list(s) for s in seqs]
        n = max(len(s) for s in seqs)
        targets = self.alive
        if not targets:
            raise ipe.NoEnginesRegistered('no engines')
        if n == 0:
            return []
        m = Map()
        tasks = []
        for i, e in enumerate(targets):
            parts = [m.getPartition(s, i, len(targets), n) for s in seqs]
            if sum(len(p) for p in parts) == 0:
                continue
            # Serialised now: the client may change its arrays afterwards.
            bufs = [bytes(memoryview(b)) if not isinstance(b, bytes) else b
                    for b in pack_apply_message(_remote_map, [f] + parts, {})]
            tasks.append(dict(i=len(tasks), engine=e, bufs=bufs, n=len(parts[0])))
        self.maps += 1
        self.tasks += len(tasks)
        # Seeded completion order and straggling.
        for t in tasks:
            t['t'] = self.w.rng.expovariate(1.0) * self.spread
        for p in list(self.plan):
            if p['kind'] in ('error', 'crash', 'crash-after', 'lost', 'slow', 'blank') and p.get('map', 0) == self.maps - 1:
                self.plan.remove(p)
                t = tasks[p.get('who', 0) % len(tasks)]
                if p['kind'] == 'slow':
                    t['t'] += 1e4
                    self.w.fault('straggler')
                else:
                    t['fault'] = p
        order = sorted(tasks, key=lambda t: (t['t'], t['i']))
        t0 = self.w.clock
        errors = []
        out = [None] * len(tasks)
        for t in order:
            self.w.clock = max(self.w.clock, t0 + t['t'])
            try:
                out[t['i']] = self._run(t)
            except Exception as e:
                errors.append(e)
        self.w.log('map', [t['i'] for t in order], len(errors))
        self.w.state('completion order', tuple(t['i'] for t in order[:8]), len(errors))
        res = SimAsyncResult(out, errors)
        self._results[self.maps] = res
        return res.get() if block else res

    def _run(self, t):
        e, f = t['engine'], t.get('fault')
        if not e.alive:
            self.w.fault('task on departed engine')
            raise ipe.EngineError('Engine {} died while running task'.format(e.id))
        if f and f['kind'] == 'crash':
            e.alive = False
            self.w.fault('engine crash before task')
            raise ipe.EngineError('Engine {} died while running task'.format(e.id))
        real = np.random.mtrand._rand
        saved = real.get_state()
        real.set_state(e.state)
        ENGINE[0], TASK[0] = e.id, (self.maps, t['i'])
        try:
            ns = {}
            fn, args, kwargs = unpack_apply_message(t['bufs'], ns, copy=True)
            if f and f['kind'] == 'error':
                self.w.fault('task error')
                raise W.SimFault('injected task failure')
            val = fn(*args, **kwargs)
            bufs = serialize_object(val)
        except Exception as exc:
            raise ipe.RemoteError(type(exc).__name__, str(exc), '', {'engine_id': e.id, 'method': 'apply'})
        finally:
            ENGINE[0] = TASK[0] = None
            e.state = real.get_state()
            real.set_state(saved)
        e.done += 1
        if f and f['kind'] == 'crash-after':
            e.alive = False
            self.w.fault('engine crash after task')
            raise ipe.EngineError('Engine {} died while running task'.format(e.id))
        if f and f['kind'] == 'lost':
            self.w.fault('result lost')
            raise ipe.TimeoutError('result did not arrive')
        val = deserialize_object(bufs)[0]
        if f and f['kind'] == 'blank':
            self.w.fault('empty result')
            return [None] * len(val)
        return val


def _remote_map(f, *seqs):
    return [f(*a) for a in zip(*seqs)]


class SimAsyncResult(object):
    def __init__(self, parts, errors):
        self._parts, self._errors = parts, errors

    def ready(self):
        return True

    def wait(self, timeout=None):
        return True

    def successful(self):
        return not self._errors

    def get(self, timeout=None):
        if self._errors:
            e = self._errors[0]
            if len(self._errors) > 1:
                raise ipe.CompositeError('{} tasks failed'.format(len(self._errors)), [
                    (type(x).__name__, str(x), '', {}) for x in self._errors])
            raise e
        return [x for p in self._parts for x in p]

    result = get

    def __iter__(self):
        return iter(self.get())

    def __len__(self):
        return len(self.get())

    def __getitem__(self, k):
        return self.get()[k]


ERRORS = (ipe.IPythonError, Exception)


def restart(model):
    return pickle.loads(pickle.dumps(model))
