"""
One forked child per simulated run: every run starts from the same freshly imported
process, and nothing a run does (or leaves behind) reaches another.
"""
import gc
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

from .kernel import Context, Rng, Skip, Violation


def load(pid):
    return importlib.import_module(f'dst.props.{pid.lower()}')


def warm():
    """import everything a run may need, once, in the parent"""
    import warnings
    import numpy
    import scipy.linalg, scipy.optimize    # noqa
    from . import simlock
    simlock.install()
    import autograd                         # noqa
    import pynare                           # noqa
    import pkgutil
    for m in pkgutil.walk_packages(pynare.__path__, 'pynare.', onerror=lambda n: None):
        if '.examples' not in m.name and '.tests' not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    from . import ref, sut, gen             # noqa
    gc.collect()
    gc.freeze()


def in_pynare(tb):
    root = os.sep + 'pynare' + os.sep
    while tb is not None:
        if root in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def execute(mod, scenario):
    """run one scenario in this process and return its result as data"""
    import random
    import warnings
    import numpy as np
    gc.disable()
    random.seed(0)
    np.random.seed(12345)
    warnings.simplefilter('ignore')
    ctx = Context()
    out = {'status': 'ok'}
    generated = None
    try:
        if 'gen' in scenario:
            pid, seed, i, tier = scenario['gen']
            scenario = json.loads(json.dumps(mod.plan(Rng(pid, seed, i), i, tier)))
            generated = scenario
        mod.run(scenario, ctx)
    except Violation as e:
        out = {'status': 'violation', 'message': e.message, 'cls': e.cls}
    except Skip as e:
        out = {'status': 'skip', 'message': str(e)}
    except BaseException as e:
        sys.settrace(None)
        text = traceback.format_exc()[-3000:]
        if in_pynare(e.__traceback__):
            where = [f for f in traceback.extract_tb(e.__traceback__)
                     if os.sep + 'pynare' + os.sep in f.filename][-1]
            out = {'status': 'violation', 'cls': f'unexpected {type(e).__name__}',
                   'message': f"unexpected {type(e).__name__} from {os.path.basename(where.filename)}"
                              f" ({where.name}): {str(e)[:200]}", 'trace': text}
        else:
            out = {'status': 'error', 'message': text}
    sys.settrace(None)
    out.update(ctx.dump())
    if generated is not None and (out['status'] == 'violation' or i < 2):
        out['scenario'] = generated
    if out['status'] == 'violation' and getattr(ctx, 'refined', None):
        out['refined'] = ctx.refined
    return out


class Job:
    __slots__ = ('key', 'scenario', 'pid', 'fd', 'buf', 'deadline', 'started')


class Pool:
    def __init__(self, mod, workers=None, limit=60.):
        self.mod = mod
        self.workers = workers or min(8, os.cpu_count() or 1)
        self.limit = limit
        self.live = {}

    def start(self, key, scenario, limit):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                for j in self.live.values():
                    os.close(j.fd)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0); os.dup2(null, 1)
                if not os.environ.get('DST_STDERR'):
                    os.dup2(null, 2)
                data = json.dumps(execute(self.mod, scenario), default=str).encode()
                while data:
                    data = data[os.write(w, data):]
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        j = Job()
        j.key, j.scenario, j.pid, j.fd, j.buf = key, scenario, pid, r, b''
        j.started = time.monotonic()
        j.deadline = j.started + limit
        self.live[r] = j

    def _finish(self, j, killed=False):
        del self.live[j.fd]
        os.close(j.fd)
        try:
            os.killpg(j.pid, signal.SIGKILL)     # the run and anything it started
        except OSError:
            pass
        _, status = os.waitpid(j.pid, 0)
        if killed:
            return {'status': 'timeout'}
        try:
            return json.loads(j.buf)
        except ValueError:
            return {'status': 'died', 'message': f"the run's process ended abruptly ({status})"}

    def poll(self, timeout=1.):
        """results of runs that have ended: [(key, scenario, result)]"""
        done = []
        now = time.monotonic()
        wait = min([timeout] + [max(0., j.deadline - now) for j in self.live.values()])
        ready, _, _ = select.select(list(self.live), [], [], wait)
        for fd in ready:
            j = self.live[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                j.buf += chunk
            else:
                done.append((j.key, j.scenario, self._finish(j)))
        now = time.monotonic()
        for j in list(self.live.values()):
            if now > j.deadline:
                done.append((j.key, j.scenario, self._finish(j, killed=True)))
        return done

    def map(self, items, limit=None, stop=None, on_result=None):
        """run (key, scenario) pairs; yields results as they come. `stop()` ends the intake"""
        it, exhausted = iter(items), False
        try:
            while True:
                while not exhausted and len(self.live) < self.workers:
                    if stop is not None and stop():
                        exhausted = True
                        break
                    try:
                        key, scn = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    self.start(key, scn, limit or self.limit)
                if not self.live:
                    return
                yield from self.poll()
        finally:
            for j in list(self.live.values()):
                self._finish(j, killed=True)

    def one(self, scenario, limit=None):
        for _, _, res in self.map([(0, scenario)], limit=limit or self.limit):
            return res

    def settle(self, scenario, res):
        """a run that hit the wall clock is given much more time, alone, before it's judged"""
        if res['status'] == 'timeout':
            res = self.one(scenario, limit=self.limit * 3)
            if res['status'] == 'timeout':
                res = {'status': 'violation', 'cls': 'hang',
                       'message': f"did not terminate within {self.limit * 3:.0f} s"}
        if res['status'] == 'died':
            res = self.one(scenario, limit=self.limit * 3)
            if res['status'] in ('died', 'timeout'):
                res = {'status': 'violation', 'cls': 'died',
                       'message': "the process running it was ended: " + res.get('message', '')}
        return res
