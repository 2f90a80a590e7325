"""Fresh processes: helpers with a hash seed and allocator settings of their own.

A helper imports qinfer once and then forks for every request, so that each
request is executed by a process in exactly the state after the import.
"""
import atexit
import importlib
import json
import os
import subprocess
import sys
import traceback

_helpers = {}


class RemoteError(Exception):
    def __init__(self, d):
        Exception.__init__(self, d['type'], d['text'])
        self.type, self.text, self.in_repo = d['type'], d['text'], d['in_repo']


def serve():
    from . import runner
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    while True:
        line = sys.stdin.readline()
        if not line:
            return 0
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                req = json.loads(line)
                try:
                    fn = getattr(importlib.import_module('sim.' + req['mod']), req['fn'])
                    ans = dict(ok=fn(*req['args']))
                except BaseException as e:
                    ans = dict(error=dict(type=type(e).__name__, in_repo=runner._in_repo(e.__traceback__),
                                          text=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]))
                with os.fdopen(wfd, 'w') as f:
                    f.write(json.dumps(ans))
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(wfd)
        with os.fdopen(r) as f:
            ans = f.read()
        os.waitpid(pid, 0)
        try:
            out.write((ans or json.dumps(dict(error=dict(type='Died', in_repo=True, text='process died')))) + '\n')
            out.flush()
        except BrokenPipeError:
            os._exit(0)


def get(hashseed, perturb=0):
    key = (hashseed, perturb)
    if key not in _helpers:
        env = dict(os.environ, QSIM_HASHSEED=str(hashseed), PYTHONHASHSEED=str(hashseed))
        if perturb:
            env['MALLOC_PERTURB_'] = str(perturb)
        main = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check.py')
        _helpers[key] = (os.getpid(), subprocess.Popen([sys.executable, main, 'serve'], stdin=subprocess.PIPE,
                                                       stdout=subprocess.PIPE, env=env, text=True))
    pid, p = _helpers[key]
    if pid != os.getpid():          # inherited over a fork
        del _helpers[key]
        return get(hashseed, perturb)
    return p


def drop(hashseed, perturb=0):
    e = _helpers.pop((hashseed, perturb), None)
    if e and e[0] == os.getpid():
        e[1].kill()
        e[1].wait()


def call(hashseed, perturb, mod, fn, *args):
    p = get(hashseed, perturb)
    try:
        p.stdin.write(json.dumps(dict(mod=mod, fn=fn, args=args)) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except BaseException:
        drop(hashseed, perturb)
        raise
    if not line:
        drop(hashseed, perturb)
        raise RuntimeError('helper died')
    ans = json.loads(line)
    if 'error' in ans:
        raise RemoteError(ans['error'])
    return ans['ok']


@atexit.register
def _stop():
    for k in list(_helpers):
        drop(*k)
