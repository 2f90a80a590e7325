#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json (claims every check in sim/checks)."""
import ast, glob, json, os, subprocess
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = [json.loads(l) for l in open('properties.jsonl')]
NA = {
 'C27': 'A property of pure functions of their arguments (closed-form likelihoods, scores): no schedule, time, I/O, '
        'randomness or fault can influence it, so simulation with fault injection has nothing to decide. (How such '
        'likelihoods are used, counted, distributed and sampled from is C01, C07, C12, C17, C25.)',
 'C28': 'A property of pure functions of their arguments (domain algebra, metrics, geometry, formatting) without any '
        'nondeterminism, state, I/O or faults: outside the reach of the technique.',
 'C29': 'The accelerated model needs pyopencl and an OpenCL device; neither exists in the sandbox, and simulating '
        'the device would compare a stub with the reference model, not QInfer.',
}
NOTES = {}
exec(open('tools/level_notes.py').read())
checks, na = [], []
for p in props:
    f = 'sim/checks/{}.py'.format(p['id'].lower())
    if os.path.exists(f) and p['id'] not in NA:
        level = [n.value.value for n in ast.parse(open(f).read()).body
                 if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'LEVEL'][0]
        checks.append(dict(
            property=p['id'],
            quick_cmd='/opt/venv/bin/python check.py run {} --tier quick'.format(p['id']),
            thorough_cmd='/opt/venv/bin/python check.py run {} --tier thorough'.format(p['id']),
            evidence_file='evidence/{}.json'.format(p['id']),
            technique='deterministic simulation with fault injection (seeded search)',
            level=level, level_note=NOTES[p['id']]))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'Check not built yet.')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python check.py list', checks=checks, not_applicable=na,
               notes='No hooks in /repo: every seam is installed from outside before qinfer is imported '
                     '(sim/world.py). Repairs of genuine defects are the "fix:" commits listed in '
                     'known_findings.json.'), open('MANIFEST.json', 'w'), indent=1)
# -- findings
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
FIX = json.load(open('tools/fixed.json'))
fixed, missing = [], []
for l in reversed(log):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    if s.startswith('UnknownT2Model and'):      # reverted, see known
        continue
    if s not in FIX:
        missing.append(s)
        continue
    fixed.append('fixed: property={} {} {}'.format(FIX[s][0], h, FIX[s][1] if len(FIX[s]) > 1 else s))
assert not missing, missing
json.dump(dict(known=json.load(open('tools/known.json')), fixed=fixed), open('known_findings.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable', len(fixed), 'fixed')
