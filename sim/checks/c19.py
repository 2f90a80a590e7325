"""C19: saved configuration survives crashes and I/O errors."""
import configparser
import os
import shutil
import sys
import tempfile
import threading

from qinfer import config as qc

from .. import fsim
from ..world import SimInterrupt, Violation

LEVEL = 'fault_enumeration'
RULE = ('A run is a history of saves and reads on a simulated disk (real files below a scratch home directory). Run i injects fault kind '
        '(i mod 9) at file system operation (i div 9 mod 12) of its last save, so that every operation of a save is failed, torn and crashed '
        'in every way in many histories, and further random faults earlier on; after each operation the configuration is read back.')
REAL = ['qinfer.config', 'configparser', 'Python text and buffer layers', 'a real file system below a scratch directory']
STUB = ['raw file and directory operations (counted, failed, torn, lost)', 'process crash and power failure', 'scheduling of concurrent processes', 'process id']
STATES = 'hash of (history position, fault, operation at which it fired, outcome: old/new)'
RUNS = dict(quick=8640, thorough=216000)
CHUNK = 24
NEEDS_OPS = False
KINDS = ['crash', 'power', 'eio', 'enospc', 'eacces', 'short', 'interrupt', 'power', 'crash']
WORDS = ['alpha', 'beta.x', 'client', 'url', 'ipyparallel', 'naïve', 'Größe', '量子', 'x-y_z', 'k1', 'path']
VALUES = ['1', '', 'a = b', 'one; two', 'x # y', '50%%', 'häß', '日本', '0.25', 'True', 'http://h:1/p?q=1', 'two\nlines', 'three\nmore\nlines', 'l' * 150, '[sect]']


def gen_cfg(rng):
    out = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        sec = rng.choice(WORDS + ['S p a c e', 'DEFAULT'])
        out[sec] = {rng.choice(WORDS): rng.choice(VALUES) for _ in range(rng.choice([0, 1, 2, 5]))}
    return out


def gen_fault(rng, kind=None, at=None):
    return dict(kind=kind or rng.choice(KINDS), at=rng.randrange(14) if at is None else at, u=round(rng.random(), 4), v=round(rng.random(), 4),
                lose=round(rng.random(), 4))


def generate(rng, i, tier):
    ops = []
    for _ in range(rng.randrange(0, 5)):
        x = rng.random()
        if x < .6:
            op = dict(op='save', cfg=gen_cfg(rng))
            if rng.random() < .4:
                op['fault'] = gen_fault(rng)
        elif x < .8:
            op = dict(op='read')
            if rng.random() < .5:
                op['fault'] = gen_fault(rng, rng.choice(['eio', 'eacces', 'interrupt', 'crash']), rng.randrange(8))
        elif x < .9:
            op = dict(op='rmtree' if rng.random() < .3 else 'bad', cfg=gen_cfg(rng), how=rng.choice(['surrogate', 'bomb']))
        else:
            op = dict(op='race', cfg=gen_cfg(rng), cfg2=gen_cfg(rng), order=rng.randrange(10 ** 6))
            if rng.random() < .3:
                op['fault'] = gen_fault(rng, rng.choice(['crash', 'eio', 'short']), rng.randrange(24))
        ops.append(op)
    ops.append(dict(op='save', cfg=gen_cfg(rng), fault=gen_fault(rng, KINDS[i % 9], i // 9 % 12)))
    if rng.random() < .5:
        ops.append(dict(op='save', cfg=gen_cfg(rng)))
    return dict(config=dict(platform=rng.choice(['linux', 'linux', 'linux2', 'darwin', 'cygwin']), home=rng.choice(['', '', 'with space', 'ü'])), ops=ops, faults=[])


def build(cfg, raw=False):
    p = (configparser.RawConfigParser if raw else configparser.ConfigParser)()
    for sec, items in cfg.items():
        if sec == 'DEFAULT':
            for k, v in items.items():
                p.defaults()[p.optionxform(k)] = v
            continue
        p.add_section(sec)
        for k, v in items.items():
            p.set(sec, k, v)
    return p


def contents(p):
    out = {'': dict(p.defaults())}
    for sec in p.sections():
        out[sec] = {k: p.get(sec, k, raw=True) for k in p.options(sec)}
    return out


class Bomb(object):
    def __str__(self):
        raise RuntimeError('injected: value cannot be written')


class Baton(object):
    """Lets exactly one of the simulated processes run; who is decided at every file system operation."""
    def __init__(self, order):
        import random
        self.rng = random.Random(order)
        self.lock = threading.Condition()
        self.alive, self.turn = [], None

    def switch(self):
        me = threading.get_ident()
        if me not in self.alive:
            return
        with self.lock:
            self.turn = self.rng.randrange(len(self.alive))
            self.turn = self.alive[self.turn]
            self.lock.notify_all()
            while self.turn != me:
                self.lock.wait()

    def done(self):
        with self.lock:
            self.alive.remove(threading.get_ident())
            if self.alive:
                self.turn = self.alive[self.rng.randrange(len(self.alive))]
            self.lock.notify_all()


def execute(sc, w):
    d = os.path.realpath(tempfile.mkdtemp(prefix='qsim-c19-'))
    env = {k: os.environ.get(k) for k in ('HOME', 'XDG_CONFIG_HOME')}
    plat, hook = sys.platform, sys.unraisablehook
    try:
        home = os.path.join(d, sc['config']['home']) if sc['config']['home'] else d
        os.makedirs(home, exist_ok=True)
        os.environ['HOME'] = home
        os.environ.pop('XDG_CONFIG_HOME', None)
        sys.unraisablehook = lambda *a: None
        sys.platform = sc['config']['platform']
        _run(sc, w, home)
    finally:
        sys.platform, sys.unraisablehook = plat, hook
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(d)


def save(disk, cfg):
    """-> exception or None"""
    try:
        qc.save_config(cfg)
        disk.point('return')       # the last moment at which to crash
    except (Exception, fsim.Crash, SimInterrupt) as e:
        e.__traceback__ = None
        e.__context__ = None
        return e
    return None


def _run(sc, w, home):
    cur = [contents(configparser.ConfigParser())]        # acceptable contents
    for k, op in enumerate(sc['ops']):
        fault = op.get('fault')
        what = 'op {} ({}{})'.format(k, op['op'], ', {} at {}'.format(fault['kind'], fault['at']) if fault else '')
        disk = fsim.Disk(home, w, fault)
        out = None
        if op['op'] == 'rmtree':
            shutil.rmtree(os.path.join(home, '.config'), ignore_errors=True)
            cur = [contents(configparser.ConfigParser())]
        elif op['op'] in ('save', 'bad'):
            raw = k % 3 == 0
            p = build(op['cfg'], raw or op['op'] == 'bad')
            if op['op'] == 'bad':
                p.add_section('zzz last')
                p.set('zzz last', 'k', 'a\udc80b' if op['how'] == 'surrogate' else Bomb())
                new = None
                w.fault('unwritable value')
            else:
                new = contents(p)
            with fsim.mounted(disk):
                exc = save(disk, p)
            if isinstance(exc, fsim.Crash) or disk.dead:
                out = 'crash'
                if disk.fired[0] == 'power':
                    disk.lose(fault['lose'], fault['v'])
            elif exc is not None:
                out = type(exc).__name__
                if disk.fired is None and op['op'] != 'bad':
                    raise Violation('save-failed', '{}: {!r} without a fault'.format(what, exc))
            elif op['op'] == 'bad':
                raise Violation('silent-bad-value', what)
            if new is not None and contents(p) != new:
                raise Violation('parser-modified', what)
            if exc is None and not disk.dead:
                cur = [new]
            elif new is not None:
                cur = cur + [new]
        elif op['op'] == 'read':
            exc = None
            with fsim.mounted(disk):
                try:
                    got = contents(qc.read_config())
                except (Exception, fsim.Crash, SimInterrupt) as e:
                    exc = e
                    exc.__traceback__ = None
            if exc is None and got not in cur:
                raise Violation('partial-read' if disk.fired else 'wrong-read', '{}: read {} although {} was saved'.format(what, got, cur))
            if exc is not None and disk.fired is None:
                raise Violation('read-failed', '{}: {!r}'.format(what, exc))
            out = type(exc).__name__
        elif op['op'] == 'race':
            out, cur = race(op, disk, cur, what)
        # Some time later, in a new process with healthy disk
        try:
            with fsim.mounted(fsim.Disk(home, w)):
                got = contents(qc.read_config())
        except Exception as e:
            raise Violation('unreadable', '{}: after it, reading fails: {!r}'.format(what, e))
        if got not in cur:
            raise Violation('neither-old-nor-new' if len(cur) > 1 else 'wrong-contents', '{}: fired {}: read back {} instead of {}'.format(
                what, disk.fired, got, ' or '.join(map(str, cur))))
        where = 'new' if got == cur[-1] else 'old'
        cur = [got]
        w.log(what, disk.fired, out, where, len(got), disk.ops)
        w.notes['file system operations'] += disk.n
        if disk.fired:
            w.notes['{} after {}: {}'.format(op['op'], disk.fired[0], where)] += 1
        w.state(op['op'], disk.fired, fault['at'] if fault else None, out, where, min(k, 3))
        w.step()


def race(op, disk, cur, what):
    baton = Baton(op['order'])
    disk.switch = baton.switch
    ps = [build(op['cfg']), build(op['cfg2'])]
    res = [None, None]
    go = threading.Event()

    def proc(j):
        go.wait()
        disk.local.pid = 5000 + j
        with baton.lock:
            while baton.turn != threading.get_ident():
                baton.lock.wait()
        try:
            res[j] = save(disk, ps[j]) or 'ok'
        finally:
            baton.done()
    ts = [threading.Thread(target=proc, args=(j,), daemon=True) for j in range(2)]
    with fsim.mounted(disk):
        for t in ts:
            t.start()
        baton.alive = [t.ident for t in ts]
        baton.turn = baton.alive[op['order'] % 2]
        go.set()
        for t in ts:
            t.join()
    new = [contents(p) for p in ps]
    ok = [r == 'ok' for r in res]
    for j in range(2):
        if not ok[j] and disk.fired is None:
            raise Violation('save-failed', '{}: {!r} without a fault'.format(what, res[j]))
    acc = new + (cur if not any(ok) else [])
    return [r if r == 'ok' else type(r).__name__ for r in res], acc
