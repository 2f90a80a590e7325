"""The simulated world: one integer seed decides everything in a run.

``install()`` puts every source of nondeterminism that QInfer can touch behind a
seam, *before* qinfer is imported:

  * the global NumPy random source (``np.random.*`` functions): owned, seeded per
    run, counted, and able to return legal extreme values (0.0, 1-2**-53, large
    normal deviates) where a scenario asks for them;
  * uninitialised memory (``np.empty``/``np.empty_like``): filled with a
    scenario-chosen pattern;
  * clocks (``time.time``, ``monotonic``, ``perf_counter``, ``sleep``): virtual
    while a world is running.

Further seams (cluster, completion order of tasks, file system, streams, model
failures, process crash) are objects of the individual checks, see cluster.py,
fsim.py and zoo.py.
"""
import hashlib
import os
import random
import sys
import time as _time
import types
from collections import Counter

REPO = os.environ.get('QINFER_REPO', '/repo')


class Violation(Exception):
    """The property under test does not hold on this execution."""
    def __init__(self, code, msg=''):
        Exception.__init__(self, code, msg)
        self.code = code
        self.msg = msg


class NoProgress(BaseException):
    """A run exceeded its deterministic step budget (livelock)."""


class Abandon(Exception):
    """The scenario left the property's domain; nothing is concluded from here on."""


class SimFault(Exception):
    """An injected failure."""


class SimInterrupt(KeyboardInterrupt):
    """An injected interrupt."""


_real = {}
_installed = False
CURRENT = None


def clone_rng(seed):
    return random.Random(seed)


def derive(*parts):
    """Stable integer seed derived from parts."""
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], 'big')


class World(object):
    def __init__(self, seed=0, poison='garbage', budget=4000000):
        import numpy as np
        self.np = np
        self.rng = random.Random(derive('world', seed))
        self.seed = seed
        self.np_seed = derive('np', seed) % (2 ** 32)
        self.poison = poison
        self.poison_rng = random.Random(derive('poison', seed))
        self.clock = 1.0e9 + (seed % 1000)
        self.clock0 = self.clock
        self.tick = 0.0            # every look at the clock takes this long
        self.faults = Counter()
        self.cover = set()
        self.notes = Counter()
        self.steps = 0
        self.budget = budget
        self.extreme_p = 0.0       # probability that a random call gets extremes
        self.extreme_normal = True
        self.draws = 0
        self._h = hashlib.sha256()
        self.trace = None          # list of trace lines when recording

    # -- recording -------------------------------------------------------
    def log(self, *items):
        s = _canon(items)
        self._h.update(s.encode('utf8', 'replace'))
        if self.trace is not None and len(self.trace) < 4000:
            self.trace.append(s[:400])

    def digest(self):
        return self._h.hexdigest()[:24]

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log('FAULT', kind)

    def state(self, *key):
        """Marks an abstract state as reached."""
        self.cover.add(derive('state', *key) & 0xFFFFFFFFFFFF)

    def step(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise NoProgress('step budget of {} exceeded'.format(self.budget))

    def advance(self, dt):
        self.clock += dt

    # -- activation ------------------------------------------------------
    def __enter__(self):
        global CURRENT
        np = self.np
        CURRENT = self
        np.random.seed(self.np_seed)
        self._err = np.geterr()
        return self

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None
        self.np.seterr(**self._err)
        return False


def _canon(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return _canon(x.tolist())
        return 'A{}{}{}'.format(x.shape, x.dtype.str if not x.dtype.names else 'S',
                                hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:16])
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(_canon(i) for i in x) + ']'
    if isinstance(x, dict):
        return '{' + ','.join('{}:{}'.format(k, _canon(x[k])) for k in sorted(x, key=str)) + '}'
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    return str(x)


# ---------------------------------------------------------------------------
TOP = 1.0 - 2.0 ** -53


class RandomFn(object):
    """Stands in for one of np.random's bound methods.

    Pickles exactly like the bound method that it replaces, i.e. together with
    a private copy of the random state."""
    def __init__(self, name, real, kind):
        self.name, self.real, self.kind = name, real, kind
        self.__name__ = self.__qualname__ = name
        self.__module__ = 'numpy.random'
        self.__self__ = real.__self__

    def __reduce__(self):
        return getattr, (self.real.__self__, self.name)

    def __call__(self, *args, **kwargs):
        out = self.real(*args, **kwargs)
        w = CURRENT
        if w is None:
            return out
        w.draws += 1
        w.step()
        if w.extreme_p and self.kind and w.rng.random() < w.extreme_p:
            if self.kind == 'uniform':
                out = _inject_uniform(w, out)
            elif w.extreme_normal:
                out = _inject_normal(w, out)
        return out


def _inject_uniform(w, out):
    np = w.np
    if isinstance(out, float):
        w.fault('rng-extreme-uniform')
        return w.rng.choice([0.0, TOP])
    if isinstance(out, np.ndarray) and out.size and out.dtype == float:
        flat = out.reshape(-1)
        k = 1 if w.rng.random() < .7 else max(1, flat.size // 3)
        for _ in range(k):
            flat[w.rng.randrange(flat.size)] = w.rng.choice([0.0, TOP, TOP])
        w.fault('rng-extreme-uniform')
        return flat.reshape(out.shape)
    return out


def _inject_normal(w, out):
    np = w.np
    if isinstance(out, float):
        w.fault('rng-extreme-normal')
        return w.rng.choice([-8.0, 8.0, 0.0])
    if isinstance(out, np.ndarray) and out.size and out.dtype == float:
        flat = out.reshape(-1)
        flat[w.rng.randrange(flat.size)] = w.rng.choice([-8.0, 8.0, 0.0])
        w.fault('rng-extreme-normal')
        return flat.reshape(out.shape)
    return out


def _fill(w, a):
    mode = w.poison
    if mode is None or a.dtype.hasobject or not a.size:
        return a
    if mode == 'zero':
        pat = 0
    elif mode == 'ones':
        pat = 0xFF
    else:
        pat = None
    try:
        raw = a.reshape(-1).view('u1')
    except Exception:
        return a
    if pat is not None:
        raw[...] = pat
    elif mode == 'nan' and a.dtype.kind == 'f':
        a[...] = float('nan')
    else:
        n = raw.size
        blk = w.poison_rng.getrandbits(8 * min(n, 64)).to_bytes(min(n, 64), 'little')
        raw[:len(blk)] = bytearray(blk)
        if n > 64:
            reps = -(-n // 64)
            raw[...] = w.np.frombuffer(blk * reps, dtype='u1')[:n]
    w.notes['uninitialised arrays filled'] += 1
    return a


def install():
    """Installs all of the seams.  Must run before qinfer is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    sys.path.insert(0, src)
    # version.py is generated by the build; nothing depends on its contents.
    if not os.path.exists(os.path.join(src, 'qinfer', 'version.py')):
        m = types.ModuleType('qinfer.version')
        m.version = '0+sim'
        m.__version__ = '0+sim'
        sys.modules['qinfer.version'] = m
    import numpy as np
    import warnings
    # -- clocks
    for name in ('time', 'monotonic', 'perf_counter', 'process_time'):
        _real[name] = getattr(_time, name)
    _real['sleep'] = _time.sleep

    def mk(name):
        real = _real[name]

        def clockfn():
            w = CURRENT
            if w is None:
                return real()
            w.notes['clock reads'] += 1
            w.clock += w.tick
            return w.clock
        clockfn.__name__ = name
        return clockfn
    for name in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(_time, name, mk(name))

    def sleep(dt):
        w = CURRENT
        if w is None:
            return _real['sleep'](dt)
        w.advance(dt)
    _time.sleep = sleep
    for name in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        real = getattr(_time, name)
        _real[name] = real

        def clockns(real=real):
            return real() if CURRENT is None else int(CURRENT.clock * 1e9)
        setattr(_time, name, clockns)
    # -- randomness
    r = np.random
    _real['RandomState'] = r.RandomState
    kinds = dict.fromkeys(('random', 'random_sample', 'rand', 'ranf', 'sample'), 'uniform')
    kinds.update(dict.fromkeys(('randn', 'standard_normal'), 'normal'))
    kinds.update(dict.fromkeys((
        'uniform', 'normal', 'choice', 'randint', 'permutation', 'shuffle', 'multinomial',
        'binomial', 'beta', 'gamma', 'dirichlet', 'multivariate_normal', 'exponential')))
    for name, kind in kinds.items():
        f = getattr(r, name)
        if hasattr(f, '__self__') and isinstance(f.__self__, r.RandomState):
            real = f
        elif hasattr(r.mtrand._rand, name):
            real = getattr(r.mtrand._rand, name)
        else:
            real = r.mtrand._rand.random_sample       # ranf, sample
        _real['np.random.' + name] = real
        setattr(r, name, RandomFn(name if hasattr(r.mtrand._rand, name) else 'random_sample', real, kind))
    # -- uninitialised memory
    real_empty, real_empty_like = np.empty, np.empty_like
    _real['np.empty'] = real_empty

    def empty(*args, **kwargs):
        a = real_empty(*args, **kwargs)
        return a if CURRENT is None else _fill(CURRENT, a)

    def empty_like(*args, **kwargs):
        a = real_empty_like(*args, **kwargs)
        if CURRENT is None or type(a) is not np.ndarray:
            return a
        return _fill(CURRENT, a)
    np.empty = empty
    np.empty_like = empty_like
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    stderr = sys.stderr
    try:
        sys.stderr = open(os.devnull, 'w')   # duecredit's import notice
        import qinfer  # noqa
    finally:
        sys.stderr.close()
        sys.stderr = stderr
    f = os.path.realpath(qinfer.__file__)
    if not f.startswith(os.path.realpath(src)):
        raise RuntimeError('qinfer imported from {} instead of {}'.format(f, src))


def real(name):
    return _real[name]
