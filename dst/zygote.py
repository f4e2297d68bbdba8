"""
Processes to restart in. A few interpreters that differ in hash seed and working directory are
started once per check, import everything and wait; each simulated process is a fork of one of
them, which is given a list of work over a socket and answers item by item, until it is done
or crashes on cue.
"""
import atexit
import importlib
import json
import os
import random
import select
import signal
import socket
import subprocess
import sys
import tempfile
import time

from . import boot

SEEDS = ['0', '1', '77', '4242', '31337']
_started = []


class Hung(Exception):
    pass


def start():
    """called once, before any run; the children of this process find them"""
    if _started:
        return
    root = tempfile.mkdtemp(prefix='z-', dir=os.environ.get('DST_SCRATCH') or None)
    for k, hs in enumerate(SEEDS):
        cwd = os.path.join(root, ['a', 'b/c', 'd e', 'pynare', 'models'][k])
        os.makedirs(cwd)
        path = os.path.join(root, f's{k}')
        env = boot.environment(hash_seed=hs, scratch=os.environ.get('DST_SCRATCH'))
        p = subprocess.Popen([sys.executable, os.path.join(boot.VERIF, 'run.py'), 'zygote', path,
                              cwd], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _started.append((path, p))
    for path, p in _started:
        if p.stdout.readline().strip() != b'ready':
            raise RuntimeError("a process to restart in could not be started")
    atexit.register(stop)


def stop():
    for _, p in _started:
        try:
            p.stdin.close()
            p.kill()
            p.wait(5)
        except Exception:
            pass


def serve(path, cwd):
    from . import pool
    pool.warm()
    os.chdir(cwd)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    print('ready', flush=True)
    while True:
        ready, _, _ = select.select([s, 0], [], [])
        if 0 in ready and not os.read(0, 1):
            os._exit(0)                       # whoever started us is gone
        if s not in ready:
            continue
        c, _ = s.accept()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s.close()
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1) + (() if os.environ.get('DST_STDERR') else (2,)):
                    os.dup2(null, fd)
                work(c)
            except BaseException as e:
                try:
                    c.sendall(json.dumps(['error', f"{type(e).__name__}: {e}"]).encode() + b'\n')
                except OSError:
                    pass
            os._exit(0)
        c.close()


def work(c):
    import gc
    import warnings
    f = c.makefile('rb')
    job = json.loads(f.readline())
    signal.alarm(int(job['limit']) + 5)
    gc.disable()
    warnings.simplefilter('ignore')
    mod = importlib.import_module(job['module'])
    mod.enter(job['env'])
    for n, item in job['items']:
        crash = job['crash'] if job['crash'] and job['crash'][0] == n else None
        out = mod.perform(item, job['env'], crash and crash[1])
        c.sendall(json.dumps([n, out]).encode() + b'\n')
        if crash:
            crashed(c)
    c.sendall(b'["end", 0]\n')


def crashed(c=None):
    """the process is gone, now"""
    os._exit(9)


def run(k, module, items, env, crash=None, limit=60.):
    """(results by item number, whether it got to the end). `items`: [(number, item)]"""
    c = socket.socket(socket.AF_UNIX)
    c.connect(_started[k % len(_started)][0])
    c.settimeout(limit)
    t0 = time.monotonic()
    try:
        c.sendall(json.dumps({'module': module, 'items': items, 'env': env, 'crash': crash,
                              'limit': limit}).encode() + b'\n')
        got, end, buf = {}, False, b''
        while True:
            try:
                chunk = c.recv(1 << 16)
            except (TimeoutError, socket.timeout):
                raise Hung(f"no answer within {limit:.0f} s")
            except ConnectionResetError:
                chunk = b''
            if not chunk:
                break
            buf += chunk
        for line in buf.split(b'\n')[:-1]:
            n, v = json.loads(line)
            if n == 'end':
                end = True
            elif n == 'error':
                raise RuntimeError(f"simulated process failed: {v}")
            else:
                got[n] = v
        return got, end
    finally:
        c.close()
