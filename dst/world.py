"""
The oracle (what a definition implies) and the subject (a real model living through a
history while its definition is tracked alongside).
"""
import io
import os

import numpy as np

from . import gen, ref, sut
from .gen import Rejected
from .kernel import Rng, Violation

EVALUATES = {'ss', 'jac', 'hess', 'eigen', 'steady', 'dyn'}
DIFFERENTIATES = {'jac', 'hess', 'eigen', 'dyn'}


class View:
    """what can be said about a definition"""
    __slots__ = ('kind', 'problems', 'solved', 'ss')
    # kind: illposed | vague | unique | nonunique | unsure


def all_current(defn):
    """pynare doesn't do models in which a variable never appears without a lead or lag"""
    seen = set(defn.incidence())
    return all(('v', n, 0) in seen for n in defn.endog_names)


def posed(defn, at):
    try:
        lin = ref.Linear(defn, at)
        # pynare doesn't do models without any lag
        return bool(lin.state) and lin.standing() not in (None, 'singular')
    except (ArithmeticError, ValueError, np.linalg.LinAlgError):
        return False


class Oracle:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def view(self, defn):
        k = defn.key()
        if k not in self.memo:
            self.memo[k] = self._view(defn)
        return self.memo[k]

    def _view(self, defn):
        v = View()
        v.problems, v.solved, v.ss = defn.problems(), None, None
        if v.problems:
            # python's and numpy's ideas of a root of -1 differ. both may do without it
            v.kind = 'vague' if 'valueless' in v.problems else 'illposed'
            return v
        init = [x for _, x in defn.endog]
        newton = defn.newton_ss(init)
        try:
            ss = np.array(sut.build(defn).ss.values)
            resid = np.abs(defn.static_residuals(ss)).max()
        except Exception as e:
            if gen.initial_is_steady(defn) and all_current(defn) and \
                    posed(defn, init):
                raise Violation(f"a well-formed model cannot be built afresh: "
                                f"{type(e).__name__}: {e}", 'fresh')
            ss, resid = None, np.inf
        if newton is None or ss is None or resid > 1e-6 or \
                np.abs(ss - newton).max() > 1e-4 * (1 + np.abs(newton).max()):
            if newton is not None and ss is not None and gen.initial_is_steady(defn):
                raise Violation(f"a model whose initial values are its steady state reports "
                                f"{sut.brief(ss)} with residual {resid:.2g}", 'steady')
            self.ctx.probe('steady state not reached by the search')
            v.kind = 'vague'
            return v
        try:
            v.ss, v.solved = ss, ref.Solved(defn, ss)
        except (ArithmeticError, ValueError):
            v.kind = 'vague'        # no derivatives at the edge of a function's domain
            return v
        try:
            verdict = v.solved.lin.standing(.04)
        except (ArithmeticError, ValueError, np.linalg.LinAlgError):
            verdict = None
        if verdict == 'unique':
            v.kind = 'unique' if gen.well_behaved(defn) and all_current(defn) else 'unsure'
        elif verdict is None:
            v.kind = 'unsure'
        else:
            v.kind = 'nonunique'
        return v

    # -----------------------------------------------------------------------------
    def judge(self, defn, order, name, arg, out, where=''):
        """raise Violation if outcome `out` of a query isn't what `defn` implies"""
        v = self.view(defn)
        ok, got = out
        ctx = self.ctx
        tag = f"{where}{name}"
        if name == 'sigma':
            if ok and 'other' not in v.problems and 'dup' not in v.problems:
                self._check(name, arg, got, v, order, where, defn)
            return
        if name in ('vd', 'vdsel') and len(defn.stoch) == 1 and v.kind != 'unique':
            return       # all of everything's variance, whatever the equations
        if v.kind == 'illposed':
            must = name in sut.NEEDS_SOLUTION or \
                ('symbol' in v.problems and name in EVALUATES) or \
                ('lag' in v.problems and name in DIFFERENTIATES)
            if must and ok:
                raise Violation(f"{tag}: reported {sut.brief_any(got)} for a definition that "
                                f"cannot be evaluated ({', '.join(sorted(set(v.problems)))})",
                                'illposed')
            ctx.judged()
            ctx.probe('queries on unusable definitions')
            return
        if v.kind == 'vague':
            return
        if v.kind == 'nonunique' and name in sut.NEEDS_SOLUTION:
            if ok:
                raise Violation(f"{tag}: reported {sut.brief_any(got)} for a model without a "
                                f"unique stable solution ({v.solved.lin.standing(.04)})", 'verdict')
            ctx.judged()
            ctx.probe('queries on models without a unique stable solution')
            return
        if v.kind == 'unsure' and name in sut.NEEDS_SOLUTION | {'eigen'}:
            return
        if not ok:
            raise Violation(f"{tag}: raised {type(got).__name__}: {str(got)[:160]}", 'raised')
        self._check(name, arg, got, v, order, where, defn)

    def _check(self, name, arg, got, v, order, where, defn):
        solved = v.solved
        if solved is None:
            if name != 'sigma':
                return
            solved = _SigmaOnly(defn)
        try:
            sut.check(name, arg, got, solved, order, where)
            if name == 'kalman':
                self._kalman(got, defn, where)
        except sut.Mismatch as e:
            raise Violation(str(e), 'mismatch ' + name)
        self.ctx.judged()

    def _kalman(self, got, defn, where):
        want = sut.q_kalman(sut.build(defn), None)
        for i, (g, w) in enumerate(zip(got, want)):
            sut.expect(f"{where}kalman[{i}]", g, w, 1e-6)


class _SigmaOnly:
    def __init__(self, defn):
        self.defn, self.lin, self.Sigma = defn, None, defn.sigma()


# ---------------------------------------------------------------------------------
def outcome(f, *a):
    """(True, value) or (False, exception)"""
    try:
        return True, f(*a)
    except Violation:
        raise
    except Exception as e:
        return False, e


def construct(defn, how):
    """a real model of the definition, built one of the ways pynare offers"""
    if how == 'text':
        from pynare.parsing import read_model
        return sut.pn().Model.from_outline(read_model(sut.mod_text(defn, sut.any_style(defn)),
                                                      'dynare'), 'dynare', defn.name)
    if how == 'file':
        import tempfile
        d = tempfile.mkdtemp(dir=os.environ.get('DST_SCRATCH') or None)
        p = os.path.join(d, (defn.name or 'm') + '.mod')
        with open(p, 'w') as f:
            f.write(sut.mod_text(defn, sut.any_style(defn) | 1))
        try:
            return sut.pn().Model.from_path(p)
        finally:
            os.unlink(p)
            os.rmdir(d)
    return sut.build(defn)


def ask(m, defn, q):
    """(arg, outcome) of the query {'q': name, 's': seed}"""
    arg = gen.query(Rng('arg', q['s']), defn, [q['q']])['arg']
    return arg, outcome(sut.QUERIES[q['q']], m, arg)


def diff(a, b):
    return '; '.join(f"{k}: {a.get(k)} instead of {b[k]}" for k in b if not eq(a.get(k), b[k]))


def eq(x, y):
    if isinstance(x, float) or isinstance(y, float):
        try:
            return abs(x - y) <= 1e-9 * (1 + abs(y))
        except TypeError:
            return x == y
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(eq(x[k], y[k]) for k in y)
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(map(eq, x, y))
    return x == y


class Subject:
    """a real model and the definition it must have"""

    def __init__(self, ctx, oracle, defn, how='ctor', label='', model=None, order=None):
        self.ctx, self.oracle, self.defn, self.label = ctx, oracle, defn, label
        self.m = construct(defn, how) if model is None else model
        self.order = order        # order of the last explicit request, if there was one

    @property
    def in_force(self):
        return self.order or 2

    def where(self):
        return f"{self.label}: " if self.label else ''

    def same_definition(self, defn=None):
        """'' or how the model's account of itself differs from the definition"""
        defn = defn or self.defn
        try:
            want = sut.defn_description(defn)
        except (ref.Unresolvable, ArithmeticError, ValueError):
            return ''      # local variables without a value: nothing to compare
        try:
            got = sut.describe(self.m)
        except Exception as e:
            return f"cannot describe itself: {type(e).__name__}: {e}"
        if len(set(want['endog'])) != len(want['endog']):
            # boundary values are noted by name: nothing to compare for a name given twice
            for k in ('terminal', 'historical'):
                got.pop(k), want.pop(k)
        return diff(got, want) or self.equations_differ(defn)

    def equations_differ(self, defn):
        """evaluate the model's own equations at a random point"""
        if defn.problems():
            return ''
        point = [x + .05 * ((7 * i) % 5 - 2) + .0137 for i, (_, x) in enumerate(defn.endog)]
        try:
            want = defn.static_residuals(point)
        except (ArithmeticError, ValueError):
            return ''
        if not np.isfinite(want).all():
            return ''
        try:
            got = np.array(self.m.steady_repr(np.array(point)))
        except Exception as e:
            if self.oracle.view(defn).kind == 'vague':
                return ''      # no steady state to linearise around, or none that's found
            return f"its equations cannot be evaluated: {type(e).__name__}: {e}"
        if not sut.close(got, want, 1e-9):
            return f"equations: {sut.brief(got)} instead of {sut.brief(want)}"
        # the same with leads, lags and shocks
        at = dict(zip(defn.endog_names, point))
        point = [.0173 * (k + 1) + (at[c[1]] if c[0] == 'v' else 0.)
                 for k, c in enumerate(defn.incidence())]
        try:
            want = sut.dyn_residuals(defn, point)
        except (ArithmeticError, ValueError):
            return ''
        if not np.isfinite(want).all():
            return ''
        try:
            got = sut.q_dyn(self.m, point)
        except Exception as e:
            return f"its equations cannot be evaluated: {type(e).__name__}: {e}"
        return '' if sut.close(got, want, 1e-9) else \
            f"equations: {sut.brief(got)} instead of {sut.brief(want)}"

    def expect_definition(self, after=''):
        bad = self.same_definition()
        self.ctx.judged()
        if bad:
            raise Violation(f"{self.where()}definition after {after}: {bad}", 'definition')

    # -- steps
    def edit(self, op):
        """an edit, on both sides; returns whether it was accepted"""
        try:
            new = gen.apply_ref(self.defn, op)
        except (Rejected, IndexError, KeyError) as e:
            new = None
        ok, got = outcome(gen.apply_real, self.m, op)
        name = op['op'] if op['op'] != 'bad' else 'bad:' + op['what']
        self.ctx.op(name)
        self.ctx.log(self.label, name, 'ok' if ok else type(got).__name__)
        if new is None and ok:
            raise Violation(f"{self.where()}{name} was accepted although it cannot be made: {op}",
                            'accepted')
        if new is not None and not ok:
            raise Violation(f"{self.where()}{name} raised {type(got).__name__}: {str(got)[:160]}",
                            'refused')
        if new is None:
            self.ctx.fault('rejected edit')
        else:
            self.defn = new
        return ok

    def query(self, q, judge=True):
        arg, out = ask(self.m, self.defn, q)
        self.ctx.op('query ' + q['q'])
        self.ctx.log(self.label, q['q'], out[0], out[1] if out[0] else type(out[1]).__name__)
        if judge:
            self.oracle.judge(self.defn, self.in_force, q['q'], arg, out, self.where())
        return arg, out

    def solve(self, order):
        """an explicit solve request"""
        v = self.oracle.view(self.defn)
        ok, got = outcome(lambda: self.m.solve(order=order))
        self.ctx.op(f'solve {order}')
        self.ctx.log(self.label, 'solve', order, ok)
        self.solved(v, ok, got, order, f'solve(order={order})')
        return ok

    def solved(self, v, ok, got, order, what):
        if order not in (1, 2):
            if ok:
                raise Violation(f"{self.where()}{what} was accepted", 'accepted')
            return
        if v.kind == 'unique' and not ok:
            raise Violation(f"{self.where()}{what} raised {type(got).__name__}: "
                            f"{str(got)[:160]}", 'raised')
        if v.kind in ('nonunique', 'illposed') and ok:
            raise Violation(f"{self.where()}{what} succeeded on a model without a unique stable "
                            f"solution ({v.kind})", 'verdict')
        if ok:
            self.order = order

    def battery(self, names=None, seed=0):
        for i, n in enumerate(names or gen.QUERY_NAMES):
            self.query({'q': n, 's': f"{seed}.{i}"})


def shrink_list(scn, key, keep=0):
    """drop halves, quarters, ... single elements of the list at `key`"""
    import copy
    ops = scn[key]
    n = len(ops)
    size = n // 2 or 1
    while size >= 1 and n > keep:
        for i in range(0, n, size):
            c = copy.deepcopy(scn)
            c[key] = ops[:i] + ops[i + size:]
            if len(c[key]) >= keep and len(c[key]) < n:
                yield c
        if size == 1:
            break
        size //= 2
