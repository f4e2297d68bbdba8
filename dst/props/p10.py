"""P10: occasionally-binding paths obey the regime in force in every period"""
import warnings

import numpy as np

from .. import faults, gen, ref, sut
from ..gen import N, P, V, Rejected, apply_ref
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import Oracle, Subject, construct, outcome, shrink_list
from . import p04

LEVEL = 'exploration'
COUNTS = {'quick': 330, 'thorough': 3000}
LIMIT = 120.
TIME_UNIT = 'simulated periods'
STATE_MEASURE = ('tuples (constraints, how the solve was asked for, sequence of regimes in the '
                 'expected path)')
RULE = ('One run is a seeded history of piecewise-linear solves (floors, ceilings and general '
        'switching conditions, one or two at once, seeded shocks, initial points, horizons and '
        'iteration limits, through every public entry point) with edits, linear solves, other '
        'requests, rejected and interrupted solves in between. Every expected path (one per '
        'arriving shock, exposed by solving for each prefix of the shocks) is checked period by '
        'period: the residuals of the linearised equations of each regime (reference jets) and '
        'the switching conditions must single out one regime, the tail must follow the '
        'reference rules, guesses and warnings must be what they may be. Solves are restarted '
        'after each shock. Non-trivial: an expected path was judged.')
REAL = ['all of pynare, numpy, scipy, autograd']
STUB = ['asynchronous exceptions are raised by a line tracer; numerical library entry points '
        'are wrapped to fail on cue']
ASSUMPTIONS = ['an alternative regime can be evaluated as a model of its own (at the point its '
               'own steady-state search ends)',
               'a horizon too short for the model to be back at the reference regime only has to '
               'be warned about', 'a restart must repeat the path only where the solution is '
               'unique (the response of slack to anticipated wedges is positive definite)',
               'tolerance 1e-8 on residuals and conditions']

SHADOWS = ['notional', 'latent']


def shadowed(rng, k):
    """a model in which k variables have an unconstrained counterpart"""
    while True:
        d = gen.model(rng.child(rng.random()), max_n=4, roles=['back', 'back', 'mixed', 'static'])
        pure = [i for i, (l, r) in enumerate(d.exprs) if l[0] == 'v' and l[2] == 0]
        if len(pure) < k:
            continue
        out = []
        for sh, i in zip(SHADOWS, rng.sample(pure, k)):
            v = d.exprs[i][0][1]
            x = dict(map(tuple, d.endog))[v]
            d.exprs[i] = [V(sh), d.exprs[i][1]]
            d.endog.insert(rng.randint(0, len(d.endog)), [sh, x])
            out.append([v, sh])
        for v, sh in out:
            d.exprs.insert(rng.randint(0, len(d.exprs)), [V(v), V(sh)])
        d.params['thr'] = round(rng.uniform(-.2, -.01), 4)
        d.params['thr_b'] = ['*', P('thr'), N(1.5)]
        if gen.well_behaved(d) and gen.initial_is_steady(d):
            return d, out


def occ(rng):
    two = rng.random() < .35
    kinds = [rng.choice(['floor', 'floor', 'ceiling', 'general', 'general']) for _ in range(1 + two)]
    return {'kinds': kinds, 's': rng.randrange(10 ** 6),
            'frac': [round(rng.choice([rng.uniform(.2, .9), rng.uniform(.2, .9),
                                       rng.uniform(1.1, 3.)]), 3) for _ in kinds],
            'S': rng.choice([1, 1, 2, 3, 4]), 'extra': rng.choice([8, 15, 20, 30]),
            'size': rng.choice([.2, 1., 1., 3.]),
            'form': rng.choice(['dict', 'list']) if not two else 'list',
            'conds': rng.choice(['number', 'number', 'param']),
            'strict': rng.random() < .7, 'pairs': rng.choice(['flat', 'nested']),
            'via': rng.choice(['solve', 'solve', 'solve', 'object', 'function']),
            'exog': rng.choice(['none', 'none2', 'name', 'list', 'list']),
            'init': rng.random() < .4, 'iter': rng.choice([0, 0, 0, 0, 1, 2, 3, 60]),
            'gauss': two and rng.random() < .4, 'spaced': rng.random() < .3}


def plan(rng, i, tier):
    d, pairs = shadowed(rng.child('m'), rng.choice([1, 2, 2]))
    start, ops = d, []
    n = rng.randint(3, 6) if tier == 'quick' else rng.randint(6, 14)
    while len(ops) < n or not any(o['op'] == 'occ' for o in ops):
        u = rng.random()
        if u < .55:
            op = {'op': 'occ', **occ(rng)}
        elif u < .65:
            op = {'op': 'strike', 'kind': rng.choice(faults.FAULTS), 'at': round(rng.random(), 6),
                  'when': round(rng.random(), 6), **occ(rng)}
        elif u < .70:
            op = {'op': 'bad', 'what': rng.choice(p04.BAD)}
        elif u < .76:
            op = {'op': 'read', 'what': rng.choice(p04.READS), 's': rng.randrange(10 ** 6)}
        elif u < .84:
            op = {'op': 'solve', 'order': rng.choice([1, 2])}
        elif u < .92:
            op = {'op': 'set_params', 'values': [['thr', round(rng.uniform(-.2, -.01), 4)]],
                  'how': rng.choice(['item', 'update', 'add'])}
        else:
            op = gen.edit(rng, d, allow_break=.05)
        if op['op'] not in HANDLERS:
            try:
                d = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                pass
        ops.append(op)
    return {'model': start.dump(), 'pairs': pairs, 'ops': ops, 'seed': rng.randrange(2 ** 31)}


# ---------------------------------------------------------------------------------
class Cond:
    """`x op t` over the variables of a path (in deviations) and the parameters"""

    def __init__(self, x, op, t):
        self.x, self.op, self.t = x, op, t

    def text(self, spaced=False):
        s = f"{ref.to_text(self.x)} {self.op} {ref.to_text(self.t)}"
        return s if spaced else s.replace('  ', ' ')

    def margin(self, defn, y):
        """positive where the condition holds, elementwise over the rows of y"""
        env = {('p', k): v for k, v in defn.param_values().items()}
        out = []
        for row in y:
            env.update({('v', n, 0): float(z) for n, z in zip(defn.endog_names, row)})
            g = ref.value(self.x, env) - ref.value(self.t, env)
            out.append(-g if self.op[0] == '<' else g)
        return np.array(out)


class Problem:
    """regimes and conditions, the shocks and where they start, all made from the definition in
    force when it is posed"""

    def __init__(self, defn, solved, pairs, op):
        self.defn, self.op = defn, op
        self.ss = solved.ss
        self.G, self.H = solved.first
        names = defn.endog_names
        g = Rng('occ', op['s'])
        nu, S = len(defn.stoch), op['S']

        # who is hit by what
        form = op['exog']
        if form == 'list':
            hit = g.sample(range(nu), g.randint(1, nu))
        elif form == 'name':
            hit = [g.randrange(nu)]
        else:
            hit = [0]
        self.exog = {'none': None, 'none2': None, 'name': defn.stoch_names[hit[0]],
                     'list': [defn.stoch_names[j] for j in hit]}[form]
        raw = np.array([[g.gauss(0, op['size']) for _ in hit] for _ in range(S)])
        if g.random() < .3 and S > 1:
            raw[g.randrange(S)] = 0.
        self.init = None
        n = len(names)
        if op['init']:
            self.init = np.array([round(g.uniform(-.3, .3) * op['size'], 4) for _ in names])
            if op['s'] % 7 == 0:
                self.init[:] = 0.
        self.raw = np.round(raw, 4)
        self.U = np.zeros((S, nu))
        for c, j in enumerate(hit):
            self.U[:, j] = self.raw[:, c]
        self.T = S + op['extra']
        y0 = np.zeros(n) if self.init is None else self.init
        self.linear = self.follow(y0, self.U, self.T)

        # what each constraint says
        self.conds, self.changes, self.unique = [], [], True
        self.wedge = []
        taken = set()
        for c, kind in enumerate(op['kinds']):
            if kind in ('floor', 'ceiling'):
                v, sh = pairs[c % len(pairs)]
                eq = [V(v), V(sh)]
                if eq not in defn.exprs or v not in names or sh not in names or v in taken:
                    raise Unposed
                taken.add(v)
                i = defn.exprs.index(eq)
                col = self.linear[:, names.index(v)]
                sign = 1. if kind == 'floor' else -1.
                worst = (sign * col).min()
                if worst > -1e-3:
                    raise Unposed
                lo = round(sign * worst * op['frac'][c], 6)
                level = round(float(self.ss[names.index(v)]), 10)
                t, alt = N(lo) if lo >= 0 else ['neg', N(-lo)], N(level + lo)
                if op['conds'] == 'param' and c == 0 and 'thr' in defn.params and kind == 'floor':
                    p = g.choice([x for x in ('thr', 'thr_b') if x in defn.params])
                    t, alt = P(p), ['+', N(level), P(p)]
                a, b = ('<', '>') if sign > 0 else ('>', '<')
                if not op['strict']:
                    a, b = a + '=', b
                self.conds.append((Cond(V(v), a, t), Cond(V(sh), b, t)))
                self.changes.append((i, [V(v), alt]))
                self.wedge.append((names.index(v), i, sign))
            else:
                self.unique = False
                i = g.choice([k for k in range(len(defn.exprs)) if k not in taken_eq(self)])
                l, r = defn.exprs[i]
                w, x = g.choice(names), g.choice(names)
                co = round(g.choice([-1, 1]) * g.uniform(.05, .3), 3)
                lag = g.choice([0, 0, -1, 1])
                dev = ['-', V(w, lag), N(round(float(self.ss[names.index(w)]), 10))]
                term = ['*', N(co) if co >= 0 else ['neg', N(-co)], dev]
                if g.random() < .3:
                    term = ['+', term, N(round(g.uniform(.01, .1), 3))]
                if g.random() < .5:
                    term = ['+', term, ['*', N(round(g.uniform(.1, .9), 3)),
                                        ['e', defn.stoch_names[g.choice(hit)]]]]
                col = self.linear[:, names.index(x)]
                down = bool(abs(col.min()) >= abs(col.max()))
                worst = col.min() if down else col.max()
                if abs(worst) < 1e-3:
                    raise Unposed
                lo = round(worst * op['frac'][c], 6)
                back = lo if g.random() < .6 else round(lo * .7, 6)
                num = lambda z: N(z) if z >= 0 else ['neg', N(-z)]
                a, b = ('<', '>') if down else ('>', '<')
                subject = V(x)
                if g.random() < .3:
                    subject = ['+', V(x), ['*', N(.05), V(w)]]
                self.conds.append((Cond(subject, a, num(lo)), Cond(subject, b, num(back))))
                self.changes.append((i, [l, ['+', r, term]]))
        self.regimes, self.active = [defn], [()]
        many = [()] + [(c,) for c in range(len(self.conds))] + ([(0, 1)] if len(self.conds) == 2 else [])
        for act in many[1:]:
            d = defn.copy()
            for c in act:
                i, eq = self.changes[c]
                d.exprs[i] = eq
            self.regimes.append(d)
            self.active.append(act)
        if any(d.problems() for d in self.regimes):
            raise Unposed
        self.lins = [ref.Linear(d, self.ss) for d in self.regimes]
        self.lins[0].resid = self.lins[0].resid * 0.
        for L in self.lins[1:]:
            if np.linalg.cond(L.A @ self.G + L.B) > 1e6:
                raise Unposed
        self.scale = max(np.abs(x).max(initial=1.) for L in self.lins
                         for x in (L.A, L.B, L.C, L.E, L.resid))
        if self.unique:
            self.unique = self.positive()

    def follow(self, y, U, T):
        out = []
        for t in range(T):
            y = self.G @ y + (self.H @ U[t] if t < len(U) else 0.)
            out.append(y)
        return np.array(out)

    def never_binds(self, prev):
        y = self.follow(prev, self.U[:1], self.T + 3)
        return all((a.margin(self.defn, y) < -1e-6).all() for a, _ in self.conds)

    def positive(self):
        """is the response of slack to anticipated wedges positive definite (so that there is
        one solution)?"""
        L, K, n = self.lins[0], self.T + 2, len(self.defn.endog)
        big = np.zeros((n * K, n * K))
        for k in range(K):
            s = slice(n * k, n * k + n)
            big[s, s] = L.B if k < K - 1 else L.B + L.A @ self.G
            if k:
                big[s, n * k - n:n * k] = L.C
            if k < K - 1:
                big[s, n * k + n:n * k + 2 * n] = L.A
        inv = np.linalg.inv(big)
        M = np.block([[si * sj * inv[v::n, i::n] for (_, i, sj) in self.wedge]
                      for (v, _, si) in self.wedge])
        return bool(np.linalg.eigvalsh(M + M.T).min() > 1e-6)

    def guesses_needed(self, t):
        """how many guesses the published guess-and-verify search needs for the t-th shock:
        a constraint binds where it was guessed to or is met, and not where it was guessed to
        and is relaxed. None if it doesn't arrive there, or only by a hair"""
        K, n, nc = self.T + 1, len(self.defn.endog), len(self.conds)
        code = {act: r for r, act in enumerate(self.active)}
        y0 = np.zeros(n) if self.init is None else self.init
        held = np.zeros((K, nc), bool)
        for i in range(t):
            for count in range(1, 61):
                if held[-4:].any():
                    return None
                rules = [(self.G, np.zeros(n))] * K
                last = max(np.flatnonzero(held.any(axis=1)), default=-1)
                for k in range(last, -1, -1):
                    L = self.lins[code[tuple(np.flatnonzero(held[k]))]]
                    G, d = rules[k + 1]
                    inv = L.A @ G + L.B
                    if np.linalg.cond(inv) > 1e8:
                        return None
                    c = L.A @ d + L.resid + (L.E @ self.U[i] if k == 0 else 0.)
                    rules[k] = (-np.linalg.solve(inv, L.C), -np.linalg.solve(inv, c))
                y, rows = y0, []
                for k, (G, d) in enumerate(rules):
                    y = G @ y + d + (self.H @ self.U[i] if k == 0 and last < 0 else 0.)
                    rows.append(y)
                rows = np.array(rows)
                if not np.abs(rows).max() < 1e4:
                    return None
                into = np.array([c[0].margin(self.defn, rows) for c in self.conds]).T
                back = np.array([c[1].margin(self.defn, rows) for c in self.conds]).T
                if np.abs(into).min() < 1e-6 or np.abs(back).min() < 1e-6:
                    return None
                if not (into > 0)[~held].any() and not (back > 0)[held].any():
                    break
                held = (held | (into > 0)) & ~(held & (back > 0))
            else:
                return None
            if i < t - 1 and count > (self.op['iter'] or 20):
                return None
            y0, held = rows[0], np.vstack((held[1:], np.zeros((1, nc), bool)))
        return count

    # -- what pynare is given
    def arguments(self, first=0, last=None):
        op = self.op
        pairs = [[a.text(), b.text()] for a, b in self.conds]
        con = pairs[0] if len(pairs) == 1 and op['pairs'] == 'flat' else pairs
        texts = [{self.changes[c][0]: ref.expr_text(self.changes[c][1]) for c in act}
                 for act in self.active[1:]]
        ex = texts[0] if op['form'] == 'dict' else texts
        raw = self.raw[first:last]
        flat = op['exog'] in ('none', 'name')
        return con, ex, (raw[:, 0].copy() if flat else raw.copy())


def taken_eq(p):
    return {i for i, _ in p.changes}


class Unposed(Exception):
    """the definition in force doesn't admit this problem"""


class Answer:
    __slots__ = ('paths', 'shocks', 'diverged', 'short', 'other', 'guesses', 'sol')


class Guesses:
    """records the candidate paths that are put to the constraint"""

    def __init__(self):
        from pynare.core.solve import binding
        self.cls, self.seen = getattr(binding, 'Constraint', None), set()

    def __enter__(self):
        if self.cls is not None and callable(getattr(self.cls, '__call__', None)):
            self.f = f = self.cls.__call__
            seen = self.seen

            def call(con, paths, *a, **k):
                seen.add(np.asarray(paths).tobytes())
                return f(con, paths, *a, **k)
            self.cls.__call__ = call
        else:
            self.f = None
        return self

    def __exit__(self, *exc):
        if self.f is not None:
            self.cls.__call__ = self.f
        return False


def answer(m, p, via, first=0, last=None, init='own', T=None):
    """pynare's solution of (part of) the problem"""
    from pynare.core.solve import binding
    con, ex, shocks = p.arguments(first, last)
    if isinstance(init, str):
        init = p.init
    kw = {'periods': T or p.T}
    if p.op['iter']:
        kw['max_iter'] = p.op['iter']
    if p.op['gauss']:
        kw['restrained'] = True
    ia = None if init is None else np.array(init)
    exog = p.exog
    before = repr((con, ex, shocks.tolist(), None if ia is None else ia.tolist(), exog))
    a = Answer()
    a.sol = None
    with warnings.catch_warnings(record=True) as caught, Guesses() as seen:
        warnings.simplefilter('always')
        if via == 'function':
            alts = [construct(d, 'ctor') for d in p.regimes[1:]]
            c = binding.Constraint(con if len(p.conds) > 1 or p.op['pairs'] == 'flat' else con[0],
                                   endog=m.endog, params=m.params, exog=m.stoch)
            if len(p.conds) == 1:
                kw.pop('restrained', None)
                a.paths, a.shocks = binding.solve_occbin_one_constraint(
                    m, alts[0], c, exog=exog, shocks=shocks, init=ia, **kw)
            else:
                a.paths, a.shocks = binding.solve_occbin_two_constraints(
                    m, *alts, c, exog=exog, shocks=shocks, init=ia, **kw)
        elif via == 'object':
            a.sol = binding.OccBinSolution(m, con, exprs=ex, exog=exog, shocks=shocks, init=ia)
            a.sol = a.sol.solve(**kw) or a.sol
        else:
            a.sol = m.solve(constraint=con, exprs=ex, exog=exog, shocks=shocks, init=ia, **kw)
    if a.sol is not None:
        a.paths, a.shocks = np.array(a.sol.paths), np.array(a.sol.shocks)
    if repr((con, ex, shocks.tolist(), None if ia is None else ia.tolist(), exog)) != before:
        raise Violation("the solve changed the arguments it was given", 'inputs')
    texts = [str(w.message) for w in caught]
    a.diverged = sum('converge' in t for t in texts)
    a.short = sum('alternative regime' in t for t in texts)
    a.guesses = len(seen.seen)
    return a


# ---------------------------------------------------------------------------------
class Path:
    """the verdict on one expected path"""

    def __init__(self, p, prev, u, rows, past):
        """`past`: periods of the horizon that cannot be seen"""
        self.p = p
        K = len(rows)
        eps = 1e-8 * (1 + np.abs(rows).max(initial=0) + np.abs(prev).max(initial=0) +
                      np.abs(u).max(initial=0)) * p.scale
        self.bad, self.regimes, self.strict = None, [], True
        ext = [rows[-1]]
        for _ in range(past + 2):
            ext.append(p.G @ ext[-1])
        full = np.vstack((rows, ext[1:]))
        into = [c[0].margin(p.defn, full) for c in p.conds]
        back = [c[1].margin(p.defn, full) for c in p.conds]
        # is the model surely back at the reference regime in what can't be seen?
        self.settled = all((m[K - 3:] < -1e-9).all() for m in into)
        for k in range(K):
            if k < K - 1:
                y, z = rows[k], (rows[k - 1] if k else prev)
                fits = []
                for r, L in enumerate(p.lins):
                    res = L.A @ rows[k + 1] + L.B @ y + L.C @ z + L.resid
                    if k == 0:
                        res = res + L.E @ u
                    if np.abs(res).max() < eps:
                        fits.append(r)
            else:
                fits = list(range(len(p.lins)))
            tol = eps
            good = [r for r in fits if all(
                (back[c][k] if c in p.active[r] else into[c][k]) <= tol
                for c in range(len(p.conds)))]
            if not fits:
                self.bad = (k, 'no regime\'s equations', 'equations')
                return
            if not good:
                self.bad = (k, f"the equations of regime {fits} only, which the conditions rule "
                            "out (switching margins "
                            f"{[(float(into[c][k]), float(back[c][k])) for c in range(len(into))]})",
                            'regime')
                return
            if k < K - 1 and (len(fits) > 1 or any(
                    abs(m[c][k]) < 1e-6 for m in (into, back) for c in range(len(p.conds))
                    if not (m is into and c in p.active[good[0]]))):
                self.strict = False
            self.regimes.append(good[0])
        if not self.settled:
            return
        binding = [k for k, r in enumerate(self.regimes) if r]
        last = binding[-1] if binding else -1
        if last >= K - 2:
            return
        for k in range(last + 1, K):
            y = p.G @ (rows[k - 1] if k else prev) + (p.H @ u if k == 0 else 0.)
            if np.abs(rows[k] - y).max() > 10 * eps:
                self.bad = (k, 'not the reference decision rule although no constraint binds from '
                            f"period {last + 1} on", 'tail')
                return


def posed(R, op):
    s = R.s
    v = R.oracle.view(s.defn)
    if v.kind != 'unique' or not s.defn.stoch:
        return None
    try:
        p = Problem(s.defn, v.solved, R.pairs, op)
    except Unposed:
        R.ctx.probe('problems the definition does not admit')
        return None
    if np.abs(p.linear).max() > 1e3:
        return None
    return p


class Run:
    def __init__(self, scn, ctx):
        self.ctx, self.oracle = ctx, Oracle(ctx)
        d = Defn.load(scn['model'])
        self.s = Subject(ctx, self.oracle, d)
        self.pairs = scn['pairs']
        self.kept = []
        np.random.seed(scn['seed'])


def run(scn, ctx):
    R = Run(scn, ctx)
    for n, op in enumerate(scn['ops']):
        where = f"operation {n} ({op['op']}): "
        ctx.log(n, op['op'])
        if op['op'] in HANDLERS:
            ctx.op(op['op'])
            try:
                HANDLERS[op['op']](R, op, where)
            except Unposed:
                ctx.probe('alternative regimes that cannot be evaluated at values of their own')
        else:
            R.s.edit(op)
        for sol, paths in R.kept:
            if not np.array_equal(np.array(sol.paths), paths):
                raise Violation(f"{where}changed the paths of an earlier solution", 'changed')
    R.s.expect_definition('everything')


def asked(R, p, where, **kw):
    ok, a = outcome(lambda: answer(R.s.m, p, p.op['via'], **kw))
    if not ok:
        if any(not outcome(lambda: sut.build(d).statespace)[0] for d in p.regimes[1:]):
            raise Unposed      # an alternative regime that is no model of its own
        raise Violation(f"{where}raised {type(a).__name__}: {str(a)[:160]}", 'raised')
    R.ctx.time += len(a.paths)
    return a


def judge(R, p, where):
    """solve for every prefix of the shocks; every expected path must obey its regimes"""
    ctx, S, op = R.ctx, len(p.raw), p.op
    limit = op['iter'] or 20
    before = None
    clean = True
    for t in range(1, S + 1):
        a = asked(R, p, where, last=t)
        tag = f"{where}{'/'.join(op['kinds'])}, shock {t} of {S}: "
        if a.paths.shape != (p.T, len(p.defn.endog)):
            raise Violation(f"{tag}paths of shape {a.paths.shape}", 'shape')
        if not np.isfinite(a.paths).all():
            if a.diverged:
                return None, False
            raise Violation(f"{tag}the path is not finite, without a warning", 'finite')
        pad = np.zeros((p.T,) + p.arguments()[2].shape[1:])
        pad[:t] = p.arguments(last=t)[2]
        if not np.array_equal(a.shocks, pad):
            raise Violation(f"{tag}the shocks are reported as {sut.brief(a.shocks)}", 'shocks')
        if before is not None and not sut.close(a.paths[:t - 1], before.paths[:t - 1], 1e-12):
            raise Violation(f"{tag}what was realised before the shock depends on it", 'prefix')
        if a.guesses > limit * t:
            raise Violation(f"{tag}{a.guesses} guesses for {t} shocks with max_iter={limit}",
                            'guesses')
        lost = a.diverged - (before.diverged if before else 0)
        short = a.short - (before.short if before else 0)
        prev = a.paths[t - 2] if t > 1 else (np.zeros(len(p.defn.endog)) if p.init is None
                                            else p.init)
        if np.abs(a.paths).max() > 1e5:
            return None, False
        v = Path(p, prev, p.U[t - 1], a.paths[t - 1:], t)
        ctx.judged()
        before = a
        if (lost or short) and t == 1 and p.never_binds(prev):
            raise Violation(f"{tag}warned, although no constraint binds on the first-order path",
                            'spurious')
        if lost or short:
            clean = False
            ctx.probe('solves that warned')
            if lost and not short and not op['gauss']:
                need = p.guesses_needed(t)
                if need is not None:
                    ctx.probe('searches given up that a longer one completes')
                    if need <= limit:
                        raise Violation(f"{tag}warned that it did not converge within {limit} "
                                        f"guesses; the search takes {need}", 'progress')
            if lost and not short and v.bad is None and v.strict and v.settled:
                raise Violation(f"{tag}warned that it did not converge; the path is the solution",
                                'spurious')
            continue
        if v.bad:
            k, what, cls = v.bad
            raise Violation(f"{tag}period {k} of the expected path obeys {what}; no warning was "
                            f"given", cls)
        if not v.settled:
            clean = False
        seq = ''.join(map(str, v.regimes)).rstrip('0')
        ctx.state(tuple(op['kinds']), op['via'], op['form'], seq)
        if seq:
            ctx.probe('expected paths with a binding constraint')
        else:
            ctx.probe('expected paths without')
    ctx.log(before.paths)
    return before, clean


def restarts(R, p, full, where):
    """stop after each shock; go on with the rest from the values reached"""
    S = len(p.raw)
    for t in range(1, S):
        R.ctx.fault('stopped and resumed')
        init = np.array(full.paths[t - 1])
        a = asked(R, p, where, first=t, init=init, T=p.T - t)
        if a.diverged or a.short:
            continue
        tag = f"{where}{'/'.join(p.op['kinds'])}, resumed after shock {t} of {S}: "
        prev = a.paths[S - t - 2] if S - t > 1 else init
        v = Path(p, prev, p.U[S - 1], a.paths[S - t - 1:], S)
        R.ctx.judged()
        if v.bad:
            raise Violation(f"{tag}period {v.bad[0]} of the expected path obeys {v.bad[1]}",
                            v.bad[2])
        if p.unique and v.settled:
            R.ctx.probe('restarts compared')
            if not sut.close(a.paths, full.paths[t:], 1e-6):
                raise Violation(f"{tag}{sut.brief(a.paths)}; uninterrupted it is "
                                f"{sut.brief(full.paths[t:])}", 'restart')


def unharmed(R, p, a, where):
    """the models involved are what they were, and know their results"""
    s = R.s
    s.expect_definition('a piecewise solve')
    for q in ('first', 'ss', 'jac', 'sigma', 'cov'):
        s.query({'q': q, 's': '0'})
    sol = a.sol
    md = getattr(sol, 'model', None)
    if md is None or not hasattr(md, 'models'):
        return
    if len(md.models) != len(p.regimes):
        raise Violation(f"{where}{len(md.models)} regimes instead of {len(p.regimes)}", 'regimes')
    if len(md) != len(p.regimes):
        raise Violation(f"{where}says to be {len(md)} regimes, of {len(p.regimes)}", 'regimes')
    for k, (m, d) in enumerate(zip(md.models, p.regimes)):
        if md[k] is not m:
            raise Violation(f"{where}asked for regime {k}, another one is given", 'regimes')
        bad = Subject(R.ctx, R.oracle, d, model=m).same_definition()
        R.ctx.judged()
        if bad:
            raise Violation(f"{where}regime {k}: {bad}", 'regimes')
    R.kept.append((sol, np.array(sol.paths)))


def do_occ(R, op, where):
    p = posed(R, op)
    if p is None:
        return
    a, clean = judge(R, p, where)
    if a is None:
        return
    if clean:
        restarts(R, p, a, where)
    again = asked(R, p, where)
    if not sut.close(again.paths, a.paths, 1e-12):
        raise Violation(f"{where}repeated, the solve gives {sut.brief(again.paths)} instead of "
                        f"{sut.brief(a.paths)}", 'repeat')
    unharmed(R, p, again, where)


def strike(R, op, where):
    p = posed(R, op)
    if p is None:
        return
    f = lambda m: answer(m, p, op['via'])
    twin = sut.build(R.s.defn)
    ok, _, cnt = faults.attempt(op['kind'], None, f, twin)
    if not cnt.count:
        return
    at = faults.moment(cnt, op['when'] < .5, op['at'], op['when'])
    ok, got, inj = faults.attempt(op['kind'], at, f, R.s.m)
    if isinstance(got, Violation):
        raise got
    if inj.where is not None:
        R.ctx.fault(op['kind'] + ' during a solve')
    R.ctx.log(op['kind'], inj.where)
    w = f"{where}after {op['kind']} at {inj.where}: "
    R.s.expect_definition(f"a piecewise solve struck by {op['kind']} at {inj.where}")
    a, clean = judge(R, p, w)
    if a is not None:
        unharmed(R, p, a, w)


def bad(R, op, where):
    if R.s.defn.exprs and R.s.defn.endog and R.s.defn.stoch:
        ok, _ = outcome(lambda: p04.bad_request(R.s.m, R.s.defn, op['what']))
        R.ctx.fault('rejected request')
        R.s.expect_definition('a request that cannot be met')


def read(R, op, where):
    if R.s.defn.exprs and R.s.defn.endog and R.s.defn.stoch:
        outcome(lambda: p04.read(R.s.m, R.s.defn, op['what'], op['s']))


def solve(R, op, where):
    R.s.solve(op['order'])


HANDLERS = {'occ': do_occ, 'strike': strike, 'bad': bad, 'read': read, 'solve': solve}


def shrink(scn):
    yield from shrink_list(scn, 'ops', 1)
    for i, op in enumerate(scn['ops']):
        for k, small in (('S', 1), ('via', 'solve'), ('exog', 'none'), ('init', False),
                         ('form', 'dict'), ('pairs', 'flat'), ('conds', 'number'),
                         ('gauss', False), ('iter', 0), ('extra', 8), ('size', 1.)):
            if op.get(k) not in (None, small) and not (k == 'form' and len(op['kinds']) > 1):
                c = {**scn, 'ops': list(scn['ops'])}
                c['ops'][i] = {**op, k: small}
                yield c
