"""C11: a seeded run is exactly repeatable."""
from .. import helper, program, zoo
from ..world import Violation

LEVEL = 'exploration'
RULE = ('A run executes one random program (inference, simulation, design, sampling, performance tests) twice, each time '
        'in a fresh process from the same seed of the global random source; the two differ in hash seed, heap contents, '
        'contents of uninitialised memory, clock, and in what other instances did before and in between.  Every result, '
        'the random state and the whole inference state after every operation must agree bit for bit.')
REAL = ['qinfer (all of inference, simulation, design, distributions, perf_testing, simple_est, ale)', 'Python interpreter processes',
        'NumPy random source', 'hash randomisation']
STUB = ['uninitialised memory contents', 'clock']
STATES = 'hash of (updater kind, model kind, operation, noise)'
RUNS = dict(quick=1600, thorough=50000)
CHUNK = 8
MAXTASKS = 100000
NEEDS_OPS = False

HELPERS = [[1, 165], [2, 90]]


def gen_program(rng, extra, n):
    cfg = program.gen_config(rng)
    setup = zoo.make(cfg['model'])
    return cfg, [program.gen_op(rng, cfg, setup, extra) for _ in range(n)]


def generate(rng, i, tier):
    cfg, ops = gen_program(rng, True, rng.randrange(2, 16))
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < .4:
            what = [cfg, list(ops[:rng.randrange(1, len(ops) + 1)])]
        else:
            what = list(gen_program(rng, True, rng.randrange(1, 5)))
        faults.append(dict(at=rng.randrange(-1, len(ops)), what=[what]))
    return dict(config=dict(cfg, other=dict(helper=rng.choice(HELPERS), poison=rng.choice(['garbage', 'nan', 'ones', 'zero']),
                                            wseed=rng.randrange(10**6), clock=rng.choice([0, 1e-3, 1e6, -1e6]),
                                            tick=rng.choice([0, 1e-9, .1, 1e3]))),
                ops=ops, faults=faults)


def execute(sc, w):
    c, o = sc['config'], sc['config']['other']
    seed = w.np_seed
    a = helper.call(0, 0, 'program', 'run', c, sc['ops'], seed, dict(wseed=1, poison='zero'))
    opts = dict(wseed=o['wseed'], poison=o['poison'], clock=o['clock'], tick=o['tick'], noise=sc['faults'])
    b = helper.call(o['helper'][0], o['helper'][1], 'program', 'run', c, sc['ops'], seed, opts)
    w.fault('other process: hash seed, heap, uninitialised memory, clock')
    for f in sc['faults']:
        w.fault('other instances used ' + ('before' if f['at'] < 0 else 'in between'))
    if len(a) != len(b):
        raise Violation('length', '{} {}'.format(len(a), len(b)))
    for k, (x, y) in enumerate(zip(a, b)):
        op = sc['ops'][k - 1] if k else dict(op='start')
        name = op.get('what') or op.get('which') or op['op']
        if x != y:
            part = [n for n, p, r in zip(['result', 'random state', 'inference state'], x, y) if p != r]
            raise Violation('differs-' + name, 'operation {} ({}): {} differ: {} / {}'.format(k, op, part, x, y))
        w.log(k, x)
        w.state(c['updater'], c['model']['kind'], op['op'], name, len(sc['faults']) > 0)
        w.step()
        w.notes[op['op'] + (' (raised)' if x[0].startswith('[raised') else '')] += 1
        if x[0].startswith('[raised'):
            w.notes[name + ' ' + x[0]] += 1
