"""C18: data ingestion gives the same estimate for every format, or fails loudly."""
import builtins
import io
import os
import shutil
import tempfile
import warnings

import numpy as np
import qinfer as q
import qinfer.simple_est as se
import scipy.stats as ss

from .. import shadow, stats, zoo
from .. import world as W
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run gives one data set to a simple estimation function in several formats and deliveries from the same state of the '
        'random source, with some deliveries truncated, malformed or failing part way; estimates, posteriors and exceptions are '
        'compared with each other and with a by-hand application of Bayes\' rule to the particles drawn.')
REAL = ['qinfer.simple_est', 'qinfer.smc', 'qinfer.resamplers', 'qinfer.derived_models', 'qinfer.rb', 'qinfer.distributions',
        'numpy text reader']
STUB = ['streams and files (text delivered, cut or failing at chosen points)', 'data frames (pandas is not installed)',
        'random source', 'uninitialised memory']
STATES = 'hash of (function, format, fault, rows, resampled)'
RUNS = dict(quick=3000, thorough=60000)
CHUNK = 8
NEEDS_OPS = False

FIELDS = dict(prec=['counts', 't', 'n_shots'], rb=['counts', 'm', 'n_shots'], irb=['counts', 'm', 'n_shots', 'reference'])
GOOD = ['float-array', 'int-array', 'fortran', 'strided', 'record', 'recarray', 'reordered', 'wide-record', 'small-record', 'frame', 'frame-reordered',
        'file', 'file-crlf', 'file-gz', 'text-stream', 'byte-stream', 'open-file', 'line-stream', 'generator-stream', 'comments', 'blank-lines',
        'no-newline', 'spaces', 'one-record', 'readonly']
BAD = ['cut', 'cut', 'missing-field', 'not-a-number', 'empty-field', 'semicolon', 'fraction', 'nan-count', 'binary', 'missing-file', 'directory', 'wrong-type',
       'wrong-names', 'too-few-columns']
IO = ['io-error', 'io-error', 'io-error', 'decode-error', 'interrupt', 'closed', 'file-io-error', 'file-io-error', 'open-error']


def generate(rng, i, tier):
    kind = rng.choice(['prec', 'prec', 'rb', 'irb'])
    rows, truth = [], rng.random()
    k = zoo.big(rng, rng.choice([1, 1, 2, 3, 8, 25]), .01, (130, 260, 300))
    fmin = rng.choice([0.0, 0.0, .2, .5])
    lims = [fmin, rng.choice([fmin + .3, 1.0, 1.5])] if kind == 'prec' else rng.choice([[0.0, 1.0], [.8, 1.0], [.5, .9]])
    a, b = .5 * rng.random(), .5 * rng.random()
    x = lims[0] + (lims[1] - lims[0]) * truth
    integral = rng.random() < .5
    for _ in range(k):
        shots = rng.choice([1, 2, 10, 40, 1000]) if k < 8 else rng.choice([1, 3, 20])
        if kind == 'prec':
            t = float(rng.randrange(1, 9)) if integral else round(rng.uniform(.1, 9), rng.choice([2, 15]))
            pr = float(np.sin(x * t / 2) ** 2)
            row = [None, t, shots]
        else:
            m = rng.choice([0, 1, 2, 5, 20, 100])
            row = [None, m, shots]
            pr = a * x ** m + b
            if kind == 'irb':
                row.append(rng.randrange(2))
        row[0] = min(shots, sum(bool(rng.random() < pr) for _ in range(shots)))
        if rng.random() < .004:
            row[0] = shots + 1               # impossible
        rows.append(row)
    cfg = dict(kind=kind, rows=rows, lims=lims, n=rng.choice([None] if rng.random() < .12 else [1, 2, 5, 50, 200, 200, 1000]),
               default_lims=bool(lims == [0.0, 1.0] and rng.random() < .5))
    fm = [f for f in GOOD if f != 'one-record' or k == 1]
    ops = [dict(op='good', fmt=rng.choice(fm), cut=rng.random(), all=rng.random() < .8, sub=rng.choice([None] * 6 + ['reverse', 'less'])) for _ in range(rng.randrange(2, 5))]
    for _ in range(rng.randrange(0, 4)):
        ops.insert(rng.randrange(len(ops) + 1), dict(op='bad', fmt=rng.choice(BAD + IO), row=rng.randrange(k), cut=rng.random(), field=rng.randrange(8),
                                                     stream=rng.random() < .5))
    return dict(config=cfg, ops=ops, faults=[])


class Frame(object):
    """The part of pandas.DataFrame that users of data frames rely on."""
    def __init__(self, cols):
        self._c = dict(cols)

    columns = property(lambda self: list(self._c))
    values = property(lambda self: np.column_stack([np.asarray(v, dtype=float) for v in self._c.values()]))
    shape = property(lambda self: (len(next(iter(self._c.values()))), len(self._c)))

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        return self._c[k].copy()

    def to_records(self, index=True, **kw):
        n = len(self)
        c = list(self._c.items())
        if index:
            c = [('index', np.arange(n))] + c
        out = np.zeros(n, dtype=[(k, v.dtype) for k, v in c])
        for k, v in c:
            out[k] = v
        return out.view(np.recarray)


class FakePandas(object):
    DataFrame = Frame


class Stream(io.StringIO):
    """Text delivered line by line (or in short reads); can fail at a point."""
    def __init__(self, text, fail_at=None, exc=None, short=7):
        io.StringIO.__init__(self, text)
        self.fail_at, self.exc, self.short = fail_at, exc, short

    def _deliver(self, f, *a):
        at = self.tell()
        s = f(*a)
        if self.fail_at is not None and at + len(s) >= self.fail_at:
            raise self.exc
        return s

    def read(self, n=-1):
        if n is None or n < 0:
            return self._deliver(io.StringIO.read, self)
        return self._deliver(io.StringIO.read, self, min(n, self.short))

    def readline(self, *a):
        return self._deliver(io.StringIO.readline, self)

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def __iter__(self):
        return self

    def readlines(self, *a):
        return list(self)


class Lines(object):
    """Neither seekable nor a subclass of anything: reads and iterates."""
    def __init__(self, text):
        self._s = io.StringIO(text)
        self.read, self.readline = self._s.read, self._s.readline

    def __iter__(self):
        return iter(self.readline, '')

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s


def texts(rows, kind, spaces=False):
    out = []
    for r in rows:
        f = [str(int(r[0])), repr(float(r[1])) if kind == 'prec' else str(r[1]), str(r[2])] + [str(x) for x in r[3:]]
        out.append((' , ' if spaces else ',').join(f))
    return out


def record(rows, kind, order=None, small=False, extra=False):
    t = dict(counts='u4' if small else 'uint', t='f8', m='i2' if small else 'int', n_shots='i4' if small else 'uint', reference=bool)
    names = FIELDS[kind]
    dt = [(n, t[n]) for n in (order or names)]
    if extra:
        dt = [('when', 'f8'), ('index', 'i8')] + dt + [('note', 'S4')]
    a = np.zeros(len(rows), dtype=dt)
    for j, n in enumerate(names):
        a[n] = [r[j] for r in rows]
    if extra:
        a['index'] = 77
        a['when'] = -3.5
    return a


def make(fmt, rows, kind, d, op):
    """-> (data argument, array to watch for changes or None)"""
    names = FIELDS[kind]
    lines = texts(rows, kind, fmt == 'spaces')
    text = '\n'.join(lines) + '\n'
    base = np.array([[float(x) for x in r] for r in rows])
    if fmt in ('float-array', 'readonly'):
        if fmt == 'readonly':
            base.flags.writeable = False
        return base, base
    if fmt == 'int-array':
        if any(float(r[1]) != int(r[1]) for r in rows):
            return base, base
        a = base.astype(int)
        return a, a
    if fmt == 'fortran':
        a = np.asfortranarray(base)
        return a, a
    if fmt == 'strided':
        big = np.full((2 * len(rows), base.shape[1] + 3), 1e6)
        big[::2, :base.shape[1]] = base
        return big[::2], big
    if fmt in ('record', 'one-record'):
        a = record(rows, kind)
        return a, a
    if fmt == 'recarray':
        a = record(rows, kind).view(np.recarray)
        return a, a
    if fmt in ('reordered', 'frame-reordered'):
        k = 1 + int(op['cut'] * (len(names) - 1))
        a = record(rows, kind, order=names[k:] + names[:k])
        if fmt == 'reordered':
            return a, a
        f = Frame([(n, a[n].copy()) for n in a.dtype.names])
        return f, f
    if fmt == 'wide-record':
        a = record(rows, kind, extra=True)
        return a, a
    if fmt == 'small-record':
        a = record(rows, kind, small=True)
        return a, a
    if fmt == 'frame':
        a = record(rows, kind)
        f = Frame([(n, a[n].copy()) for n in names])
        return f, f
    if fmt == 'comments':
        ls = ['# ' + ','.join(names)]
        for j, l in enumerate(lines):
            ls.append(l + ('  # take {}, again'.format(j) if j % 2 else ''))
        return Stream('\n'.join(ls) + '\n'), None
    if fmt == 'blank-lines':
        return Stream('\n' + '\n\n'.join(lines) + '\n\n'), None
    if fmt in ('no-newline',):
        return Stream('\n'.join(lines)), None
    if fmt in ('text-stream', 'spaces'):
        return io.StringIO(text), None
    if fmt == 'byte-stream':
        return io.BytesIO(text.encode()), None
    if fmt == 'line-stream':
        return Stream(text), None
    if fmt == 'generator-stream':
        return Lines(text), None
    name = os.path.join(d, 'data.csv' + ('.gz' if fmt == 'file-gz' else ''))
    if fmt == 'file-gz':
        import gzip
        with gzip.open(name, 'wt') as f:
            f.write(text)
    else:
        with open(name, 'w', newline='') as f:
            f.write(text.replace('\n', '\r\n') if fmt == 'file-crlf' else text)
    if fmt == 'open-file':
        return open(name), None
    return name, None


def spoil(op, rows, kind, d):
    """-> (data argument, expected exception types or None for any)"""
    fmt = op['fmt']
    lines = texts(rows, kind)
    r = op['row'] % len(rows)
    f = lines[r].split(',')
    j = op['field'] % len(f)
    if fmt == 'cut':
        # Anywhere inside a row from which the row cannot be reconstructed
        body = lines[r][:lines[r].rindex(',') + 1]
        k = 1 + int(op['cut'] * len(body))
        lines = lines[:r] + [body[:min(k, len(body))]]
    elif fmt == 'missing-field':
        del f[j]
        lines[r] = ','.join(f)
    elif fmt == 'not-a-number':
        f[j] = ['ten', 'x1', '1 2', '--1', '1e', '0x1g'][int(op['cut'] * 6)]
        lines[r] = ','.join(f)
    elif fmt == 'empty-field':
        f[j] = ''
        lines[r] = ','.join(f)
    elif fmt == 'semicolon':
        lines[r] = ';'.join(f)
    elif fmt == 'fraction':
        f[0] = f[0] + '.5'
        lines[r] = ','.join(f)
    elif fmt == 'nan-count':
        f[0] = 'nan'
        lines[r] = ','.join(f)
    elif fmt == 'binary':
        lines[r] = '\x01\x7f' + lines[r]
    text = '\n'.join(lines) + '\n'
    if fmt == 'missing-file':
        return os.path.join(d, 'nowhere', 'data.csv'), OSError
    if fmt == 'directory':
        return d, OSError
    if fmt == 'wrong-type':
        return [[float(x) for x in rr] for rr in rows] if op['stream'] else None, TypeError
    if fmt == 'wrong-names':
        a = record(rows, kind)
        a.dtype.names = [('x' + n if k == j % len(a.dtype.names) else n) for k, n in enumerate(a.dtype.names)]
        return a, None
    if fmt == 'too-few-columns':
        return np.array([[float(x) for x in rr] for rr in rows])[:, :len(FIELDS[kind]) - 1], None
    if fmt == 'closed':
        s = io.StringIO(text)
        s.close()
        return s, None
    at = int(op['cut'] * len(text))
    if fmt in ('io-error', 'decode-error', 'interrupt'):
        exc = {'io-error': OSError(5, 'injected'), 'interrupt': W.SimInterrupt('injected'),
               'decode-error': UnicodeDecodeError('utf8', b'\xff', 0, 1, 'injected')}[fmt]
        return Stream(text, at, exc), type(exc)
    name = os.path.join(d, 'bad.csv')
    if fmt == 'file-io-error':
        return Opened(name, lambda: Stream(text, at, OSError(5, 'injected'))), OSError
    if fmt == 'open-error':
        def fail():
            raise OSError(13, 'injected')
        return Opened(name, fail), OSError
    if op['stream']:
        return io.StringIO(text), None
    with open(name, 'w') as fh:
        fh.write(text)
    return name, None


class Opened(object):
    """A file name whose opening is decided by us."""
    def __init__(self, name, factory):
        self.name, self.factory = name, factory

    def __enter__(self):
        with open(self.name, 'w') as f:
            f.write('0')
        self.saved = builtins.open, io.open, dict(np.lib._datasource._file_openers._file_openers)

        def op(name, *a, **k):
            if name == self.name:
                return self.factory()
            return self.saved[0](name, *a, **k)
        builtins.open = io.open = op
        np.lib._datasource._file_openers._file_openers[None] = op
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.saved[:2]
        d = np.lib._datasource._file_openers._file_openers
        d[None] = self.saved[1]


def pmf(kind, row, x):
    if kind == 'prec':
        pr = np.sin(x[:, 0] * row[1] / 2) ** 2
    elif kind == 'rb':
        p, a, b = x.T
        pr = a * p ** row[1] + b
    else:
        pt, p, a, b = x.T
        pr = a * (p if row[3] else pt * p) ** row[1] + b
    return ss.binom.pmf(row[0], row[2], pr)


class Watch(object):
    """Notes every (re)draw of the prior and every resampling of an updater."""
    def __init__(self):
        self.ev = []

    def __enter__(self):
        self.orig = q.SMCUpdater.__dict__.get('reset'), q.SMCUpdater.__dict__.get('resample')
        o_reset, o_res, ev = self.orig[0], self.orig[1], self.ev

        def reset(s, *a, **k):
            r = o_reset(s, *a, **k)
            ev.append(('reset', len(s.data_record), np.array(s.particle_weights), np.array(s.particle_locations)))
            return r

        def resample(s, *a, **k):
            b = np.array(s.particle_weights), np.array(s.particle_locations)
            r = o_res(s, *a, **k)
            ev.append(('resample', len(s.data_record), b[0], b[1], np.array(s.particle_weights), np.array(s.particle_locations)))
            return r
        q.SMCUpdater.reset, q.SMCUpdater.resample = reset, resample
        return self

    def __exit__(self, *a):
        q.SMCUpdater.reset, q.SMCUpdater.resample = self.orig


def by_hand(c, ev, out, what):
    """Checks the whole run of the inference that the events witness."""
    kind, rows, n = c['kind'], c['rows'], c['n']
    n = n or (6000 if kind == 'prec' else 8000)
    if not ev or ev[0][0] != 'reset' or ev[0][1] != 0 or any(e[0] == 'reset' for e in ev[1:]):
        raise Violation('restarted', '{}: {}'.format(what, [e[:2] for e in ev]))
    wts, x = ev[0][2], ev[0][3]
    d = {'prec': 1, 'rb': 3, 'irb': 4}[kind]
    if x.shape != (n, d):
        raise Violation('particle-number', '{}: {} expected {}'.format(what, x.shape, (n, d)))
    lo, hi = c['lims']
    k = 2 if kind == 'irb' else 1
    if not (np.all(x[:, :k] >= lo) and np.all(x[:, :k] <= hi)) or (d > 1 and (np.any(x[:, k:] < 0) or np.any(x[:, k:].sum(axis=1) > 1 + 1e-12))):
        raise Violation('prior-support', '{}: initial particles {} .. {} for limits {}'.format(what, x.min(axis=0), x.max(axis=0), c['lims']))
    if n >= 50:
        for j in range(k):
            if not stats.uniform_ok((x[:, j] - lo) / (hi - lo)):
                raise Violation('prior-not-uniform', '{}: parameter {}'.format(what, j))
        if d > 1:
            # uniform on the triangle A, B >= 0, A + B <= 1 (where limits do not bind)
            a, b = x[:, k], x[:, k + 1]
            if not stats.uniform_ok((a + b) ** 2) or not stats.uniform_ok(1 - (1 - a) ** 2):
                raise Violation('prior-not-uniform', '{}: A and B'.format(what))
    res = list(ev[1:])
    for j, row in enumerate(rows):
        hyp = wts * pmf(kind, row, x)
        z = hyp.sum()
        if z < 1e-14:
            if z < 1e-17:      # numerically impossible (cf. C04)
                return 'impossible', None
            raise W.Abandon('vanishing likelihood')
        wts = hyp / z
        e = 1 / np.sum(wts ** 2)
        due = None if abs(e - .5 * n) < 1e-9 * n else e < .5 * n
        done = bool(res and res[0][1] == j + 1)
        if due is not None and due != done and not (n == 1):
            raise Violation('resampling-schedule', '{}: after row {} of {}: effective sample size {} of {}, resampled {}'.format(what, j, len(rows), e, n, done))
        if done:
            r = res.pop(0)
            if not shadow.close(r[2], wts, rt=1e-7, at=1e-12) or not shadow.close(r[3], x):
                raise Violation('posterior-before-resampling', '{}: row {}: weights wrong by {}'.format(what, j, np.max(np.abs(r[2] - wts))))
            wts, x = r[4], r[5]
    if res:
        raise Violation('resampling-schedule', '{}: resampled at {}'.format(what, [e[1] for e in res]))
    if out is None:
        return None, None
    mean, cov = out[0], out[1]
    mu = wts.dot(x)
    s = np.einsum('n,ni,nj->ij', wts, x - mu, x - mu)
    if d == 1:
        mu, s = mu[0], s[0, 0]
    if np.shape(mean) != np.shape(mu) or np.shape(cov) != np.shape(s):
        raise Violation('shape', '{}: {} {}'.format(what, np.shape(mean), np.shape(cov)))
    if not shadow.close(mean, mu, rt=1e-6, at=1e-9) or not np.all(np.abs(cov - s) <= 1e-6 * np.abs(s) + 1e-9):
        raise Violation('estimate', '{}: {} {} expected {} {}'.format(what, mean, cov, mu, s))
    if len(out) > 2:
        u = out[2]['updater']
        if [int(v) for v in u.data_record] != [r[0] for r in rows]:
            raise Violation('data-record', '{}: {} expected {}'.format(what, u.data_record, [r[0] for r in rows]))
        if not shadow.close(u.particle_weights, wts, rt=1e-7, at=1e-12) or not shadow.close(u.particle_locations, x):
            raise Violation('updater', '{}: the updater returned does not hold the posterior'.format(what))
    return None, sum(1 for e in ev if e[0] == 'resample')


def execute(sc, w):
    d = tempfile.mkdtemp(prefix='qsim-c18-')
    saved = se.pd
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            se.pd = FakePandas
            _run(sc, w, d)
    finally:
        se.pd = saved
        shutil.rmtree(d)


def _same(a, b):
    if isinstance(a, Frame):
        return a.columns == b.columns and all(a[k].tobytes() == b[k].tobytes() and a[k].dtype == b[k].dtype for k in a.columns)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def _copy(a):
    if isinstance(a, Frame):
        return Frame([(k, a[k]) for k in a.columns])
    return a.copy()


def _run(sc, w, d):
    c = sc['config']
    kind, rows = c['kind'], c['rows']
    fn = q.simple_est_prec if kind == 'prec' else q.simple_est_rb
    kw = {}
    if c['n']:
        kw['n_particles'] = c['n']
    if not c['default_lims']:
        kw.update(dict(freq_min=c['lims'][0], freq_max=c['lims'][1]) if kind == 'prec' else dict(p_min=c['lims'][0], p_max=c['lims'][1]))
    if kind == 'irb':
        kw['interleaved'] = True
    first = None
    for k, op in enumerate(sc['ops']):
        what = '{} {} ({})'.format(kind, op['fmt'], k)
        np.random.seed(w.np_seed)
        out, exc, resampled = None, None, None
        if op['op'] == 'good':
            mine = rows
            if op.get('sub') and len(rows) > 1:
                # other data (in a file of the same name)
                mine = rows[::-1] if op['sub'] == 'reverse' else rows[:-1]
            data, owned = make(op['fmt'], mine, kind, d, op)
            before = _copy(owned) if owned is not None else None
            with Watch() as wt:
                try:
                    out = fn(data, return_all=op['all'], **kw)
                except RuntimeError as e:
                    exc = e
            if hasattr(data, 'close'):
                data.close()
            if owned is not None and not _same(owned, before):
                raise Violation('input-modified', what)
            bad, resampled = by_hand(dict(c, rows=mine), wt.ev, out, what)
            if exc is not None and bad is None:
                raise Violation('failed', '{}: {!r}'.format(what, exc))
            if bad is not None and exc is None:
                raise Violation('impossible-data-accepted', what)
            if out is not None and op['all'] != (len(out) == 3):
                raise Violation('return-all', what)
            res = None if out is None else (np.array(out[0]), np.array(out[1]))
            w.notes['estimates'] += 1
            if mine is not rows:
                continue
            if first is None:
                first = (op['fmt'], res)
            elif res is None or first[1] is None:
                if res is not first[1]:
                    raise Violation('formats-disagree', '{} failed, {} did not'.format(op['fmt'], first[0]))
            elif not shadow.close(res[0], first[1][0], rt=1e-9, at=1e-15) or not shadow.close(res[1], first[1][1], rt=1e-9, at=1e-15):
                raise Violation('formats-disagree', '{}: {} but {}: {}'.format(op['fmt'], res, first[0], first[1]))
        else:
            data, want = spoil(op, rows, kind, d)
            w.fault(op['fmt'])
            ok = owned = None
            if isinstance(data, np.ndarray):
                owned = data.copy()
            try:
                if isinstance(data, Opened):
                    with data:
                        out = fn(data.name, **kw)
                else:
                    out = fn(data, **kw)
            except (Exception, W.SimInterrupt) as e:
                exc = e
            if exc is None:
                raise Violation('silent-' + op['fmt'], '{}: returned {} from data that cannot be read'.format(what, out))
            if want is not None and not isinstance(exc, want):
                raise Violation('wrong-error-' + op['fmt'], '{}: {!r} instead of {}'.format(what, exc, want.__name__))
            if owned is not None and not _same(data, owned):
                raise Violation('input-modified', what)
        w.log(what, op['op'], res if op['op'] == 'good' else None, type(exc).__name__)
        w.state(kind, op['fmt'], op.get('stream'), len(rows), bool(resampled), exc is None)
        w.step()
