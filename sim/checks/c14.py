"""C14: inference interrupted at any point resumes exactly from a checkpoint."""
import base64
import pickle
import warnings

import numpy as np

from .. import helper, program, zoo
from ..world import Violation
from . import c11

LEVEL = 'exploration'
RULE = ('A run executes one random program without interruption in a fresh process, and again with checkpoints at random '
        'points: the process crashes and a fresh one goes on from the checkpoint, or a copy is restored and misused while '
        'the original goes on, or the original continues in place of the copy.  Every result and state must be the same.')
REAL = ['qinfer.smc', 'qinfer.resamplers', 'qinfer.distributions', 'models of the zoo', 'pickle', 'Python interpreter processes']
STUB = ['moment of the crash', 'uninitialised memory contents', 'clock']
STATES = 'hash of (updater kind, model kind, prior, operation after the checkpoint, kind of checkpoint)'
RUNS = dict(quick=2500, thorough=60000)
CHUNK = 8
MAXTASKS = 100000
NEEDS_OPS = False


def generate(rng, i, tier):
    cfg, ops = c11.gen_program(rng, False, rng.randrange(2, 16))
    faults = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        faults.append(dict(at=rng.randrange(0, len(ops)), kind=rng.choice(['crash', 'restore', 'copy', 'twin', 'dump']),
                           protocol=rng.choice([2, 3, 4, 5]), helper=rng.choice(c11.HELPERS + [[0, 0]])))
    faults.sort(key=lambda f: f['at'])
    return dict(config=cfg, ops=ops, faults=faults)


def execute(sc, w):
    warnings.simplefilter('ignore')
    c, ops = sc['config'], sc['ops']
    seed = w.np_seed
    ref = helper.call(0, 0, 'program', 'run', c, ops, seed, dict(wseed=1, poison='zero'))
    np.random.seed(seed)
    setup = zoo.make(c['model'])
    env = program.start(c)

    def compare(k, n, how):
        w.log(k, n)
        if n != ref[k + 1]:
            part = [x for x, p, r in zip(['result', 'random-state', 'state'], n, ref[k + 1]) if p != r]
            raise Violation('{}-differs-in-{}'.format(how, part[0]), 'operation {} ({}) after {}'.format(
                k, ops[k] if k >= 0 else 'start', [(f['kind'], f['at']) for f in sc['faults'] if f['at'] <= k]))
    compare(-1, program.note(env, None), 'run')
    copies = []
    k = 0
    how = 'run'
    while k < len(ops):
        todo = [f for f in sc['faults'] if f['at'] == k]
        skip = 0
        for f in todo:
            before = program.note(env, None)
            blob = pickle.dumps(env, f['protocol'])
            if program.note(env, None) != before:
                raise Violation('checkpoint-disturbed-run', 'before operation {}'.format(k))
            w.fault('checkpoint: ' + f['kind'])
            w.state(c['updater'], c['model']['kind'], c['wprior'], ops[k]['op'], f['kind'])
            if f['kind'] == 'crash':
                # This process is gone; a fresh one carries on for a while, and is then itself interrupted.
                later = [g['at'] for g in sc['faults'] if g['at'] > k]
                end = min(later) if later else len(ops)
                r = helper.call(f['helper'][0], f['helper'][1], 'program', 'resume', base64.b64encode(blob).decode(),
                                program.rng_state(), c, ops[k:end], dict(wseed=2, poison='nan', protocol=f['protocol']))
                for j, n in enumerate(r['notes']):
                    compare(k + j, n, 'fresh-process')
                env = pickle.loads(base64.b64decode(r['blob']))
                program.set_rng(r['rng'])
                if program.note(env, None) != r['final'][0]:
                    raise Violation('second-checkpoint-differs', 'after operation {}'.format(end))
                how = 'fresh-process'
                skip = end - k
                break
            if f['kind'] == 'restore':
                env = pickle.loads(blob)
                how = 'restored'
            elif f['kind'] == 'copy':
                copies.append(('other', pickle.loads(blob)))
            elif f['kind'] == 'twin':
                copies.append(('original', env))
                env = pickle.loads(blob)
                how = 'restored'
            if program.note(env, None) != before:
                raise Violation('restored-state-differs', 'before operation {}: {}'.format(k, f))
        if skip:
            k += skip
            continue
        compare(k, program.note(env, program.step(env, ops[k], setup)), how)
        # Copies do something else; nobody else may notice.
        for j, (kind, e) in enumerate(copies):
            st = np.random.get_state()
            op = ops[(k * 7 + j * 3 + 1) % len(ops)]
            program.step(e, op, zoo.make(c['model']))
            e['u'].reset() if (k + j) % 5 == 4 else None
            np.random.set_state(st)
        if copies:
            n = program.note(env, None)
            if n[1:] != ref[k + 1][1:]:
                raise Violation('shared-state', 'after operation {} of another copy'.format(k))
        w.step()
        k += 1
