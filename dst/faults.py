"""
Fault injection through the interpreter: every executed line of the code under test is a
point where an interrupt or an allocation failure can strike, and every call into the
numerical libraries one where they can fail. Both are counted first, so that a fault is a
number: "at the k-th line", "the k-th numerical call".
"""
import linecache
import os
import sys

import numpy as np

from . import boot

ROOT = os.path.join(os.path.realpath(boot.REPO), 'pynare') + os.sep


def under_test(filename, _memo={}):
    """0 not ours, 1 pynare, 2 the libraries whose python code runs inside pynare's calls"""
    r = _memo.get(filename)
    if r is None:
        real = os.path.realpath(filename)
        if real.startswith(ROOT):
            r = 1
        elif os.sep + 'autograd' + os.sep in real or os.sep + 'scipy' + os.sep in real:
            r = 2
        else:
            r = 0
        _memo[filename] = r
    return r


def atomic_line(frame):
    """
    a `with` line runs the context manager's exit, which CPython users cannot protect either:
    asynchronous exceptions there are a known limit of the language, not of pynare
    """
    return atomic_text(frame.f_code.co_filename, frame.f_lineno)


def atomic_text(filename, lineno, _memo={}):
    key = (filename, lineno)
    r = _memo.get(key)
    if r is None:
        text = linecache.getline(*key).strip()
        r = _memo[key] = text.startswith(('with ', 'async with'))
    return r


class Injected:
    """mixin to recognise what the simulator raised"""


class Interrupt(KeyboardInterrupt, Injected):
    pass


class NoMemory(MemoryError, Injected):
    pass


class Failed(np.linalg.LinAlgError, Injected):
    pass


class Broken(OSError, Injected):
    pass


KINDS = {'interrupt': Interrupt, 'memory': NoMemory}


MONITOR = 4      # a tool id of sys.monitoring that nobody else uses


class Lines:
    """
    counts the lines executed under test; at the `at`-th raises `exc`. `deep` also counts the
    numerical libraries' python lines. `limit` bounds the number of lines (liveness)
    """

    def __init__(self, at=None, exc=Interrupt, deep=False, limit=None, on_limit=None,
                 record=True, twice=0):
        self.ended, self.twice = False, twice      # strike again at the n-th line executed after the first
        self.at, self.exc, self.deep, self.limit = at, exc, deep, limit
        self.on_limit = on_limit
        self.seen = {} if at is None and record else None      # line -> when it was executed
        self.count, self.where = 0, None

    def __enter__(self):
        if self.twice:
            # python stops tracing when a tracer raises; monitoring goes on
            sys.monitoring.use_tool_id(MONITOR, 'dst')
            sys.monitoring.register_callback(MONITOR, sys.monitoring.events.LINE, self.after)
            sys.monitoring.set_events(MONITOR, sys.monitoring.events.LINE)
        # generators resumed and functions called from here on are traced
        sys.settrace(self.call)
        return self

    def __exit__(self, *exc):
        self.ended = True
        sys.settrace(None)
        if self.twice is not None and sys.monitoring.get_tool(MONITOR):
            sys.monitoring.set_events(MONITOR, 0)
            sys.monitoring.register_callback(MONITOR, sys.monitoring.events.LINE, None)
            sys.monitoring.free_tool_id(MONITOR)
        return False

    def after(self, code, lineno):
        if self.where is None or not self.twice or self.ended or \
                under_test(code.co_filename) != 1:
            return
        if self.twice == 1 and atomic_text(code.co_filename, lineno):
            return
        self.twice -= 1
        if not self.twice:
            self.where += f" and at once again at {os.path.basename(code.co_filename)}:{lineno}"
            raise self.exc(f"injected at {self.where}")

    def call(self, frame, event, arg):
        k = under_test(frame.f_code.co_filename)
        if k == 1 or (k == 2 and self.deep):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.seen is not None:
                self.seen.setdefault((frame.f_code.co_filename, frame.f_lineno),
                                     []).append(self.count)
            if self.at is not None and self.where is None and self.count >= self.at:
                if not atomic_line(frame):
                    self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                    self.fire(frame)
            if self.limit is not None and self.count > self.limit:
                self.limit = None
                raise (self.on_limit or OutOfSteps)(f"{self.count} lines")
        return self.line

    def fire(self, frame):
        raise self.exc(f"injected at {self.where}")


class OutOfSteps(BaseException):
    """the step budget of a call that must terminate was exhausted"""


# ---------------------------------------------------------------------------------
NUMERICAL = [
    ('scipy.linalg', ['solve', 'inv', 'qz', 'ordqz', 'cholesky', 'solve_discrete_lyapunov',
                      'det', 'schur', 'solve_sylvester', 'eigvals', 'eig', 'lu_factor', 'qr']),
    ('numpy.linalg', ['solve', 'inv', 'qr', 'matrix_rank', 'eigvals', 'cholesky', 'det', 'svd',
                      'eig', 'pinv', 'lstsq', 'matrix_power']),
    ('scipy.optimize', ['minimize', 'root', 'fsolve', 'least_squares']),
]


class Calls:
    """counts calls into the numerical libraries made by pynare; the `at`-th one fails"""

    def __init__(self, at=None):
        self.at, self.count, self.where, self.saved = at, 0, None, []
        self.inside = False

    def __enter__(self):
        import importlib
        for mod, names in NUMERICAL:
            m = importlib.import_module(mod)
            for n in names:
                if hasattr(m, n):
                    f = getattr(m, n)
                    self.saved.append((m, n, f))
                    setattr(m, n, self.wrap(n, f))
        return self

    def __exit__(self, *exc):
        for m, n, f in self.saved:
            setattr(m, n, f)
        return False

    def wrap(self, name, f):
        def call(*a, **k):
            caller = sys._getframe(1).f_code.co_filename
            if self.inside or under_test(caller) != 1:
                return f(*a, **k)
            self.count += 1
            if self.at is not None and self.count == self.at:
                self.where = name
                raise Failed(f"injected failure of {name}")
            self.inside = True
            try:
                return f(*a, **k)
            finally:
                self.inside = False
        call.__name__ = name
        return call


def moment(inj, spread, u, v):
    """
    when to strike, given a counting pass: uniformly over everything executed, or (`spread`)
    uniformly over the distinct source lines and then over the times each was executed, so
    that what runs once is struck as often as what runs ten thousand times
    """
    seen = getattr(inj, 'seen', None)
    if spread and seen:
        times = seen[sorted(seen)[int(u * len(seen))]]
        return times[int(v * len(times))]
    return 1 + int(u * inj.count)


def injector(kind, at):
    """the context manager that makes a fault of `kind` strike at `at` (None: only count)"""
    kind, _, twice = kind.partition(' again after ')
    deep = kind.endswith('+')
    base = kind.rstrip('+')
    if base == 'numerical':
        return Calls(at)
    return Lines(at, KINDS[base], deep=deep, twice=int(twice or 0))


FAULTS = ['interrupt', 'interrupt', 'memory', 'numerical', 'interrupt+']
# a user who does not wait: the second one strikes what the first one set off
IMPATIENT = [f"interrupt again after {n}" for n in (1, 1, 1, 2, 2, 3, 4)]


def attempt(fault, at, f, *a):
    """
    run f under the fault. returns (ok, value or exception, injector); an exception that is
    not the injected one is returned just the same
    """
    inj = injector(fault, at)
    try:
        with inj:
            v = f(*a)
        return True, v, inj
    except Exception as e:
        return False, e, inj
    except KeyboardInterrupt as e:
        return False, e, inj
