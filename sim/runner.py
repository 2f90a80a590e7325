"""Runs checks: seeded search, minimisation, replay, evidence."""
import copy
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import signal
import subprocess
import sys
import traceback
from collections import Counter

from . import helper
from . import world as W
from .world import Violation, NoProgress, World, derive

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('QSIM_OUT', os.path.join(HERE, 'out'))
KNOWN = os.path.join(HERE, 'known_findings.json')
POISON = ['garbage', 'nan', 'ones', 'zero']
RUN_ALARM = 120          # wall-clock backstop for one run, seconds


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def load(prop):
    return importlib.import_module('sim.checks.' + prop.lower())


def all_checks():
    from . import checks
    return sorted(m.name.upper() for m in pkgutil.iter_modules(checks.__path__)
                  if m.name[1:].isdigit())


class Rng(random.Random):
    """Uniform variates of which scenarios keep a few digits; rounding must not take them to one."""
    getrandbits = random.Random.getrandbits

    def random(self):
        return min(super(Rng, self).random(), .99994)


def make_scenario(chk, prop, base, i, tier):
    seed = derive(prop, base, i)
    rng = Rng(seed)
    sc = chk.generate(rng, i, tier)
    sc.setdefault('poison', POISON[i % 4])
    sc['seed'] = seed
    return sc


def _in_repo(tb):
    src = os.path.realpath(os.path.join(W.REPO, 'src'))
    return any(os.path.realpath(fr.filename).startswith(src) for fr in traceback.extract_tb(tb))


def run_one(chk, sc, trace=False):
    """Executes one scenario; a pure function of the scenario and the code."""
    sc = json.loads(json.dumps(sc))
    w = World(sc['seed'], sc.get('poison', 'garbage'), budget=getattr(chk, 'BUDGET', 4000000))
    if trace:
        w.trace = []
    res = dict(code=None, msg='', harness=None)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_ALARM)
    try:
        with w:
            try:
                chk.execute(sc, w)
            finally:
                signal.alarm(0)
    except Violation as e:
        res['code'], res['msg'] = e.code, str(e.msg)[:2000]
    except helper.RemoteError as e:
        if e.in_repo or e.type in ('ArithmeticError', 'ValueError', 'TypeError', 'IndexError', 'KeyError', 'AttributeError'):
            res['code'], res['msg'] = 'unexpected-' + e.type, e.text
        else:
            res['harness'] = e.text
    except W.Abandon as e:
        w.notes['abandoned: ' + str(e)] += 1
    except NoProgress as e:
        res['code'], res['msg'] = 'no-progress', str(e)
    except Hang:
        res['code'], res['msg'] = 'no-progress', 'hang: no end within {} s'.format(RUN_ALARM)
    except Exception as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if _in_repo(e.__traceback__):
            res['code'] = 'unexpected-' + type(e).__name__
            res['msg'] = tb
        elif isinstance(e, (ArithmeticError, LookupError, TypeError, ValueError, AttributeError)):
            # Our own code could not make sense of what the code under test
            # returned (wrong shape, type, missing field, ...).
            res['code'] = 'uninterpretable-' + type(e).__name__
            res['msg'] = tb
        else:
            res['harness'] = tb
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    # Not part of the trace: messages may contain addresses.
    w.log('END', res['code'])
    res.update(digest=w.digest(), faults=dict(w.faults), cover=w.cover, steps=w.steps,
               draws=w.draws, notes=dict(w.notes), simtime=w.clock - w.clock0,
               trace=w.trace)
    return res


# ---------------------------------------------------------------------------
_CHK = None
_ARGS = None


def _job(i):
    prop, base, tier = _ARGS
    try:
        sc = make_scenario(_CHK, prop, base, i, tier)
        r = run_one(_CHK, sc)
    except BaseException as e:      # a bug in the harness itself
        r = dict(code=None, harness=traceback.format_exc()[-3000:], digest='', faults={},
                 cover=set(), steps=0, draws=0, notes={}, simtime=0, msg='', trace=None)
    r.pop('trace', None)
    r['i'] = i
    return r


def known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except IOError:
        return {'known': [], 'fixed': []}


def known_match(prop, code, sc):
    for k in known().get('known', []):
        if k['property'] != prop or k['code'] != code:
            continue
        if all(sc.get('config', {}).get(a) == b for a, b in k.get('config', {}).items()):
            return k
    return None


def minimise(chk, sc, code, seconds=60):
    t0 = W.real('monotonic')()
    tried = [0]

    def fails(c):
        if W.real('monotonic')() - t0 > seconds:
            return False
        tried[0] += 1
        try:
            r = run_one(chk, c)
        except Exception:
            return False
        return r['code'] == code
    cur = copy.deepcopy(sc)
    changed = True
    while changed and W.real('monotonic')() - t0 < seconds:
        changed = False
        for key in ('ops', 'faults'):
            xs = cur.get(key)
            if not isinstance(xs, list) or not xs:
                continue
            n = 2
            while len(cur[key]) >= 1 and n <= 2 * max(1, len(cur[key])):
                xs = cur[key]
                size = max(1, len(xs) // n)
                hit = False
                for s in range(0, len(xs), size):
                    c = copy.deepcopy(cur)
                    c[key] = xs[:s] + xs[s + size:]
                    if key == 'ops' and not c[key] and getattr(chk, 'NEEDS_OPS', True):
                        continue
                    if fails(c):
                        cur, hit, changed = c, True, True
                        break
                if hit:
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n *= 2
        if hasattr(chk, 'shrinks'):
            for c in chk.shrinks(copy.deepcopy(cur)):
                c = copy.deepcopy(c)
                if c != cur and fails(c):
                    cur, changed = c, True
                    break
    return cur, tried[0]


def write_replay(prop, chk, sc, code, tier, original):
    d = os.path.join(OUT, 'replays')
    if not os.path.isdir(d):
        os.makedirs(d)
    r = run_one(chk, sc, trace=True)
    path = os.path.join(d, '{}-{}-{}.json'.format(prop, code[:40].replace('/', '_').replace(' ', '_'), sc['seed']))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, violation=code, message=r['msg'], scenario=sc,
                       seed=sc['seed'], digest=r['digest'], trace=r['trace'],
                       original_scenario=original, tier=tier,
                       how_to='cd /verif && /opt/venv/bin/python check.py replay ' + path), f, indent=1,
                  default=str)
    return path, r


def replay(path):
    with open(path) as f:
        d = json.load(f)
    chk = load(d['property'])
    r = run_one(chk, d['scenario'], trace=True)
    same = r['code'] == d['violation'] and r['digest'] == d['digest']
    print('replay {}: violation={} (recorded {}), digest={} (recorded {})'.format(
        path, r['code'], d['violation'], r['digest'], d['digest']))
    if r['msg']:
        print(r['msg'])
    if r['harness']:
        print(r['harness'])
        return 2
    if r['code'] is None:
        print('the recorded violation does not occur on this tree')
        return 0
    print('reproduced exactly' if same else 'a violation occurs, but the execution differs')
    print('VIOLATION property={} replay={}'.format(d['property'], path))
    return 1


def run_check(prop, tier, base, workers=8, runs=None, seconds=None, evidence=True, quiet=False):
    global _CHK, _ARGS
    chk = load(prop)
    _CHK, _ARGS = chk, (prop, base, tier)
    n = runs or chk.RUNS[tier]
    cap = seconds or getattr(chk, 'CAP', {}).get(tier, 240 if tier == 'quick' else 780)
    t0 = W.real('monotonic')()
    results, viol, harness = [], [], []
    repeat = min(n, 16 if tier == 'quick' else 64)
    truncated = False
    jobs = list(range(n))
    faults, notes, cover, digests = Counter(), Counter(), set(), {}
    steps = draws = done = 0
    simtime = 0.0
    mism = 0
    ctx = mp.get_context('fork')
    pool = ctx.Pool(workers, maxtasksperchild=getattr(chk, 'MAXTASKS', 200))
    known_hits = Counter()
    try:
        it = pool.imap_unordered(_job, jobs + jobs[:repeat], chunksize=getattr(chk, 'CHUNK', 1))
        seen_first = {}
        for r in it:
            i = r['i']
            if i in seen_first:
                if seen_first[i] != r['digest']:
                    mism += 1
                continue
            seen_first[i] = r['digest']
            done += 1
            if r['harness']:
                harness.append((i, r['harness']))
                if len(harness) > 3:
                    break
                continue
            faults.update(r['faults'])
            notes.update(r['notes'])
            cover |= r['cover']
            steps += r['steps']
            draws += r['draws']
            simtime += r['simtime']
            digests[r['digest']] = digests.get(r['digest'], 0) + 1
            if r['code']:
                sc = make_scenario(chk, prop, base, i, tier)
                k = known_match(prop, r['code'], sc)
                if k:
                    known_hits[k['id']] += 1
                else:
                    viol.append((i, r['code'], r['msg']))
                    break
            if W.real('monotonic')() - t0 > cap:
                truncated = True
                break
    finally:
        pool.terminate()
        pool.join()
    search_s = W.real('monotonic')() - t0
    replay_path = None
    if viol:
        i, code, msg = viol[0]
        sc = make_scenario(chk, prop, base, i, tier)
        small, tried = minimise(chk, sc, code, seconds=45 if tier == 'quick' else 120)
        replay_path, rr = write_replay(prop, chk, small, code, tier, sc)
        if not quiet:
            print('run {} of {} violates {}: {}'.format(i, n, prop, code))
            print(msg[-1500:])
            print('minimised in {} executions to {} ops, {} faults'.format(
                tried, len(small.get('ops', [])), len(small.get('faults', []))))
    samples = []
    for i in range(min(2, n)):
        sc = make_scenario(chk, prop, base, i, tier)
        r = run_one(chk, sc, trace=True)
        tr = (r['trace'] or [])
        samples.append(dict(run=i, scenario=json.loads(json.dumps(sc, default=str)),
                            trace_head=tr[:12], trace_len=len(tr), digest=r['digest']))
        s = json.dumps(samples[-1])
        if len(s) > 6000:
            samples[-1] = dict(run=i, scenario_excerpt=json.dumps(sc)[:4000], digest=r['digest'],
                               trace_head=tr[:6])
    wall = W.real('monotonic')() - t0
    ev = dict(
        property=prop, tier=tier, seed=base, level=chk.LEVEL,
        coverage=dict(
            evaluations=done, distinct_nontrivial=len(digests),
            rule=chk.RULE + ' Distinct: different execution digest (all simulator decisions and observed results).',
            samples=samples,
            runs_requested=n, stopped_by_time_cap=truncated,
            seeds_per_hour=int(done / max(search_s, 1e-9) * 3600),
            simulated_seconds=round(simtime, 3),
            simulated_steps=steps, random_draws_intercepted=draws,
            faults_injected=dict(faults), distinct_states=len(cover),
            state_measure=getattr(chk, 'STATES', 'abstract states marked by the check'),
            other_counts=dict(notes),
            determinism_pairs=dict(repeated=repeat, different=mism),
            real_components=chk.REAL, stubbed_components=chk.STUB,
            known_findings_hit=dict(known_hits)),
        assumptions=getattr(chk, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=len(viol))
    if evidence:
        d = os.path.join(HERE, 'evidence')
        if not os.path.isdir(d):
            os.makedirs(d)
        tmp = os.path.join(d, '.' + prop + '.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, prop + '.json'))
    for k in known().get('known', []):
        if k['property'] == prop and known_hits.get(k['id']):
            print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
    if not quiet:
        print('{} {}: {} runs ({} distinct), {} states, {} steps, faults {}, {:.1f} s{}{}'.format(
            prop, tier, done, len(digests), len(cover), steps, dict(faults), wall,
            ', TRUNCATED' if truncated else '',
            ', {} of {} repeated runs differed'.format(mism, repeat) if mism else ''))
    if viol:
        print('VIOLATION property={} replay={}'.format(prop, replay_path))
        return 1
    if harness:
        print('HARNESS ERROR in {} runs; first (run {}):\n{}'.format(len(harness), *harness[0]))
        return 2
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd')
    a = sp.add_parser('run')
    a.add_argument('property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a.add_argument('--workers', type=int, default=8)
    a.add_argument('--runs', type=int)
    a.add_argument('--seconds', type=float)
    a.add_argument('--no-evidence', action='store_true')
    b = sp.add_parser('replay')
    b.add_argument('path')
    c = sp.add_parser('one')
    c.add_argument('property')
    c.add_argument('index', type=int)
    c.add_argument('--seed', type=int, default=1)
    c.add_argument('--tier', default='quick')
    sp.add_parser('list')
    sp.add_parser('serve')
    ns = ap.parse_args(argv)
    W.install()
    if ns.cmd == 'run':
        return run_check(ns.property.upper(), ns.tier, ns.seed, ns.workers, ns.runs, ns.seconds,
                         evidence=not ns.no_evidence)
    if ns.cmd == 'replay':
        return replay(ns.path)
    if ns.cmd == 'one':
        chk = load(ns.property)
        sc = make_scenario(chk, ns.property.upper(), ns.seed, ns.index, ns.tier)
        r = run_one(chk, sc, trace=True)
        print(json.dumps(sc)[:3000])
        for line in (r['trace'] or [])[-60:]:
            print('  ', line)
        print(r['code'], r['msg'], r['harness'], r['faults'], r['notes'], r['digest'])
        return 0
    if ns.cmd == 'serve':
        from . import helper
        return helper.serve()
    if ns.cmd == 'list':
        print('\n'.join(all_checks()))
        return 0
    ap.print_help()
    return 2
