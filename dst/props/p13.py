"""P13: the stability verdict is about the current model and never wears off"""
import numpy as np

from .. import faults, gen, ref, sut
from ..gen import N, P, V, Rejected, add, apply_real, apply_ref, mul
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import Oracle, Subject, all_current, ask, outcome, shrink_list
from . import p04

LEVEL = 'exploration'
COUNTS = {'quick': 1100, 'thorough': 9000}
LIMIT = 90.
TIME_UNIT = 'operations on a model'
STATE_MEASURE = ('quadruples (standing at the last request, standing now, request, outcome)')
RULE = ('One run is a seeded history of a model with one to three hinges - equations whose '
        'coefficients (parameters, parameters defined through others, locals or literals) put a '
        'root inside or outside the unit circle - that is moved across the determinacy boundary '
        'and back by edits of every kind (also: repeated equations, equations removed and '
        'restored), with every request that needs a unique stable solution asked in random '
        'order, repeated, and struck by interrupts, memory exhaustion and numerical failures. '
        'The verdict is the reference\'s: the count of stable roots of the full companion '
        'pencil, the rank condition on its stable subspace and the regularity of the pencil. '
        'Non-trivial: a request was judged after the verdict had changed.')
REAL = ['all of pynare, autograd, numpy, scipy, matplotlib (Agg)']
STUB = ['asynchronous exceptions are raised by a line tracer; numerical library entry points '
        'are wrapped to fail on cue']
ASSUMPTIONS = ['roots within 0.01 of the unit circle and nearly singular models are not judged',
               'the variance decomposition of a model with one shock is all of it, whatever the '
               'model', 'of models without lags, which pynare only does in part, only the verdict '
               'and the first order are judged', 'where the steady-state search does not arrive there is no verdict']

IN = [-.9, -.6, .3, .5, .8, .95, .985]
OUT = [-1.4, -1.1, 1.015, 1.05, 1.2, 1.6, 2.5]
REQUESTS = sorted(sut.NEEDS_SOLUTION)


def coefficients(kind, side, rng):
    """the numbers that put the hinge's root(s) where `side` says"""
    pick = lambda out: rng.choice(OUT if out else IN)
    if kind == 'back':
        return [pick(side != 'in')]
    if kind == 'fwd':
        return [round(1 / pick(side == 'in'), 6)]
    # a x(-1) + b x(+1): the roots multiply to a/b and add to 1/b
    while True:
        s, u = {'in': (False, True), 'none': (True, True), 'many': (False, False)}[
            side if side != 'out' else rng.choice(['none', 'many'])]
        s, u = pick(s), pick(u)
        if abs(s + u) > .2:
            return [round(s * u / (s + u), 6), round(1 / (s + u), 6)]


def hinge_eq(h, co, extra):
    v, lags = h['name'], {'back': [-1], 'fwd': [1], 'mixed': [-1, 1]}[h['kind']]
    rhs = None
    for c, lag in zip(co, lags):
        t = mul(c, V(v, lag))
        rhs = t if rhs is None else add(rhs, t)
    return [V(v), add(rhs, extra) if extra is not None else rhs]


def lit(x):
    return N(x) if x >= 0 else ['neg', N(-x)]


def hinged(rng):
    """a well-behaved model with hinges, all of them inside"""
    # the rank condition is most delicate where it is about one forward-looking variable
    alone = rng.random() < .25
    for _ in range(200):
        d = gen.model(rng.child('base', rng.random()), max_n=3, tiny=rng.random() < .3)
        if alone and any(c[0] == 'v' and c[2] > 0 for c in d.incidence()):
            continue
        kinds = [rng.choice(['back', 'back', 'fwd', 'mixed'])
                 for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        if alone:
            kinds = rng.choice([['back', 'fwd'], ['fwd', 'back'], ['back', 'fwd', 'back']])
        hinges = []
        for k, kind in enumerate(kinds):
            h = {'name': f"hinge{'abc'[k]}", 'kind': kind}
            vals = coefficients(h['kind'], 'in', rng)
            how = rng.choice(['param', 'param', 'dep', 'local', 'literal'])
            h['params'], co = [], []
            for j, x in enumerate(vals):
                p = f"hp{'abc'[k]}{j}"
                if how == 'literal':
                    co.append(lit(x))
                    continue
                h['params'].append(p)
                d.params[p] = x
                if how == 'param':
                    co.append(P(p))
                elif how == 'dep':
                    d.params[p + 'x'] = mul(P(p), N(2.))
                    co.append(['/', P(p + 'x'), N(2.)])
                else:
                    d.locals[p + 'loc'] = ['-', add(P(p), N(1.)), N(1.)]
                    co.append(P(p + 'loc'))
            extra = None
            if rng.random() < .7 and d.endog:
                w, x = rng.choice(d.endog)
                t = V(w) if abs(x) < 1e-12 else ['-', V(w), N(x)] if x >= 0 else add(V(w), N(-x))
                extra = mul(lit(round(rng.uniform(-.5, .5), 3)), t)
            if rng.random() < .4:
                e = mul(N(.5), ['e', rng.choice(d.stoch_names)])
                extra = e if extra is None else add(extra, e)
            h['extra'] = extra
            h['eq'] = hinge_eq(h, co, extra)
            if rng.random() < .5:
                # felt elsewhere
                i = rng.randrange(len(d.exprs))
                l, r = d.exprs[i]
                d.exprs[i] = [l, add(r, mul(lit(round(rng.uniform(-.1, .1), 3)), V(h['name'])))]
            d.exprs.insert(rng.randint(0, len(d.exprs)), h['eq'])
            d.endog.insert(rng.randint(0, len(d.endog)), [h['name'], 0.])
            hinges.append(h)
        if gen.well_behaved(d) and gen.initial_is_steady(d):
            return d, hinges
    return hinged(rng.child('again', rng.random()))


def crossing(rng, d, hinges):
    """an edit meant to change (or restore) the verdict"""
    back = [h for h in hinges if h['kind'] == 'back' and h['params'] and h['params'][0] in d.params]
    fwd = [h for h in hinges if h['kind'] == 'fwd' and h['params'] and h['params'][0] in d.params]
    if back and fwd and rng.random() < .45:
        # both at once: the count may be right when both are wrong
        b, f = rng.choice(back), rng.choice(fwd)
        side = rng.choice(['in', 'out', 'out'])
        return {'op': 'set_params', 'how': rng.choice(['add', 'update']), 'values': [
            [x['params'][0], coefficients(x['kind'], side, rng)[0]] for x in (b, f)]}
    h = rng.choice(hinges)
    side = rng.choice(['in', 'in', 'out', 'none' if h['kind'] == 'mixed' else 'out'])
    vals = coefficients(h['kind'], side, rng)
    here = [i for i, e in enumerate(d.exprs) if e[0] == V(h['name'])]
    known = [p for p in h['params'] if p in d.params]
    u = rng.random()
    if u < .6 and len(known) == len(vals):
        values = [[p, x] for p, x in zip(known, vals)]
        how = rng.choice(['add', 'update'])
        if len(values) == 1:
            how = rng.choice(['add', 'item', 'update'])
            if rng.random() < .2 and d.params:
                nums = [p for p in gen.numeric_params(d) if p not in known and abs(d.params[p]) > .05]
                if nums:
                    o = rng.choice(nums)
                    r = round(vals[0] / d.params[o], 6)
                    values = [[known[0], mul(P(o), lit(r))]]
        return {'op': 'set_params', 'values': values, 'how': how}
    if u < .8 and here:
        return {'op': 'set_expr', 'i': rng.choice(here),
                'eq': hinge_eq(h, [lit(x) for x in vals], h['extra'])}
    if u < .9 and here:
        return {'op': 'set_expr', 'i': rng.choice(here), 'eq': h['eq']}
    if u < .95 and len(d.exprs) > 1:
        i, j = rng.sample(range(len(d.exprs)), 2)       # the same equation twice
        l, r = d.exprs[j]
        return {'op': 'set_expr', 'i': i, 'eq': rng.choice([[l, r], [r, l]])}
    if here and rng.random() < .5:
        return {'op': 'del_expr', 'i': rng.choice(here), 'how': rng.choice(['del', 'pop'])}
    return {'op': 'add_exprs', 'eqs': [h['eq']], 'how': rng.choice(['add', 'append', 'extend'])}


def a_request(rng):
    u = rng.random()
    if u < .55:
        return {'q': rng.choice(REQUESTS), 's': rng.randrange(10 ** 6)}
    if u < .7:
        return {'op': 'solve', 'order': rng.choice([1, 1, 2])}
    if u < .8:
        return {'op': 'simulate', 'order': rng.choice([1, 2]), 'periods': rng.randint(2, 5),
                'rand': rng.random() < .5}
    if u < .9:
        return {'op': 'verify'}
    return {'op': 'occbin', 'bind': rng.random() < .3}


def lagless(rng):
    """a model without lags, of which pynare does the verdict and the first order"""
    n = rng.randint(2, 4)
    names = rng.sample(gen.ENDOG, n)
    fwd = set(rng.sample(names, rng.randint(1, n - 1)))
    params, exprs = {}, []
    for k, v in enumerate(names):
        rhs = ['e', 'eu'] if rng.random() < .6 or k == 0 else None
        if v in fwd:
            params[f"c{k}"] = round(1 / rng.choice(OUT), 6)
            t = mul(P(f"c{k}"), V(v, 1))
            rhs = t if rhs is None else add(t, rhs)
        for w in names:
            if w != v and rng.random() < .6:
                t = mul(lit(round(rng.uniform(-.3, .3), 3)), V(w, int(w in fwd) * rng.randint(0, 1)))
                rhs = t if rhs is None else add(rhs, t)
        exprs.append([V(v), rhs if rhs is not None else mul(N(.2), V(names[k - 1]))])
    d = Defn([[v, 0.] for v in rng.sample(names, n)], [['eu', {'variance': .5}]], params, {},
             rng.sample(exprs, n))
    steps = []
    for _ in range(rng.randint(4, 9)):
        if rng.random() < .45:
            p = rng.choice(list(params))
            steps.append([p, round(1 / rng.choice(OUT + IN), 6)])
        else:
            steps.append(rng.choice(['verify', 'solve', 'first', 'cov']))
    return {'lagless': d.dump(), 'steps': steps + ['verify', 'solve']}


def run_lagless(scn, ctx):
    d = Defn.load(scn['lagless'])
    m = sut.build(d)
    last = None
    asked = {'verify': lambda: m.statespace.verify(), 'solve': lambda: m.solve(order=1),
             'first': lambda: m.first_order_solution.gu, 'cov': lambda: m.stats.cov()}
    for k, step in enumerate(scn['steps']):
        ctx.time += 1
        if isinstance(step, list):
            d = Defn.load(d.dump())
            d.params[step[0]] = m.params[step[0]] = step[1]
            continue
        try:
            lin = ref.Linear(d, np.zeros(len(d.endog)))
            st = lin.standing(.02)
        except np.linalg.LinAlgError:
            st = None
        if st is None or not all_current(d) or d.problems() or np.linalg.cond(
                lin.A @ np.zeros_like(lin.A) + lin.B) > 1e6:
            continue
        ok, got = outcome(asked[step])
        ctx.log(k, step, st, ok, None if ok else type(got).__name__)
        ctx.state(last, 'without lags: ' + st, step, ok)
        ctx.judged()
        last = st
        if ok != (st == 'unique'):
            raise Violation(f"step {k} ({step}) of a model without lags: " + (
                f"no error, though it has no unique stable solution ({st})" if ok else
                f"raised {type(got).__name__}: {got}, though it has a unique stable solution"),
                'without lags')
        if not ok and not isinstance(got, IDENTIFICATION):
            raise Violation(f"step {k} ({step}) of a model without lags raised "
                            f"{type(got).__name__}: {got}", 'kind of error')


def plan(rng, i, tier):
    if rng.random() < .05:
        return lagless(rng.child('lagless'))
    d, hinges = hinged(rng.child('m'))
    start, ops = d, []
    n = rng.randint(10, 18) if tier == 'quick' else rng.randint(14, 34)
    while len(ops) < n:
        u = rng.random()
        if u < .27:
            op = crossing(rng, d, hinges)
        elif u < .33:
            op = gen.edit(rng, d, allow_break=.3)
        elif u < .70:
            op = a_request(rng)
            if rng.random() < .2:
                ops.append(op)      # twice
        elif u < .84:
            t = a_request(rng) if rng.random() < .6 else crossing(rng, d, hinges)
            op = {'op': 'strike', 'kind': rng.choice(faults.FAULTS), 'at': round(rng.random(), 6),
                  'when': round(rng.random(), 6), 'spread': rng.random() < .7, 'target': t}
        elif u < .90:
            op = {'op': 'read', 'what': rng.choice(p04.READS), 's': rng.randrange(10 ** 6)}
        elif u < .93:
            op = {'op': 'copy', 'keep': rng.random() < .5}
        elif u < .96:
            h = rng.choice(hinges)
            side = rng.choice(['in', 'out'])
            op = {'op': 'regime', 'hinge': h['name'], 'eq': hinge_eq(
                h, [lit(x) for x in coefficients(h['kind'], side, rng)], h['extra'])}
        else:
            op = {'q': rng.choice(['ss', 'jac', 'eigen', 'sigma', 'hess']),
                  's': rng.randrange(10 ** 6)}
        if op['op'] not in HANDLERS if 'op' in op else False:
            try:
                d = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                pass
        elif op.get('op') == 'strike' and 'op' in op['target'] and \
                op['target']['op'] not in HANDLERS:
            pass
        ops.append(op)
    return {'model': start.dump(), 'ops': ops, 'how': rng.choice(['ctor', 'ctor', 'text', 'file']),
            'final': rng.randrange(10 ** 6)}


# ---------------------------------------------------------------------------------
class Judge:
    """what must become of requests that need a unique stable solution"""

    def __init__(self, oracle):
        self.oracle, self.memo = oracle, {}

    def standing(self, d):
        k = d.key()
        if k not in self.memo:
            self.memo[k] = self._standing(d)
        return self.memo[k]

    def _standing(self, d):
        v = self.oracle.view(d)
        if v.kind == 'illposed':
            return 'illposed'
        seen = []
        for l, r in d.exprs:
            if [l, r] in seen or [r, l] in seen:
                return 'repeated equation'
            seen.append([l, r])
        if v.kind == 'vague':
            return None
        if v.kind == 'unique':
            return 'unique'
        try:
            s = v.solved.lin.standing()
        except np.linalg.LinAlgError:
            return None
        if not v.solved.lin.state or not all_current(d):
            return None         # pynare only does these in part
        if s == 'unique':
            G = v.solved.first
            M = None if G is None else v.solved.lin.A @ G[0] + v.solved.lin.B
            if M is None or np.linalg.cond(M) > 1e7 or np.abs(G[0]).max() > 1e4 or \
                    np.linalg.eigvalsh(d.sigma())[0] < 1e-9:
                return None
            return 'barely unique'
        return s

    def must_raise(self, d):
        return self.standing(d) in ('none', 'many', 'rank', 'singular', 'illposed',
                                    'repeated equation')

    def must_not(self, d, what, order=1):
        s = self.standing(d)
        return s == 'unique' or (s == 'barely unique' and order == 1 and what in FIRST)


from pynare.errors import ModelIdentificationError as IDENTIFICATION

DECOMPOSABLE = ('unique', 'barely unique', 'none', 'many', 'rank')
FIRST = {'first', 'cov', 'var', 'corr', 'kalman', 'state_sigma', 'solve', 'verify'}


class Run:
    def __init__(self, scn, ctx):
        self.ctx, self.oracle = ctx, Oracle(ctx)
        self.judge = Judge(self.oracle)
        self.s = Subject(ctx, self.oracle, Defn.load(scn['model']), scn['how'])
        self.others = []
        self.asked = None


def verdict(R, s, what, out, order, where):
    """judge the outcome of a request that needs a unique stable solution"""
    ok, got = out
    d = s.defn
    st = R.judge.standing(d)
    R.ctx.state(R.asked, st, what, ok)
    if R.judge.must_raise(d):
        if what in ('vd', 'vdsel') and len(d.stoch) == 1 or what == 'verify' and st == 'illposed':
            return
        if ok:
            raise Violation(f"{where}{what} reported {sut.brief_any(got)}: the model has no "
                            f"unique stable solution ({st})", 'accepted')
        if st in ('none', 'many', 'rank', 'singular') and not isinstance(got, IDENTIFICATION):
            raise Violation(f"{where}{what} raised {type(got).__name__}: {str(got)[:160]}: not "
                            f"the verdict on a model without unique stable solution ({st})",
                            'kind of error')
        R.ctx.judged()
    elif R.judge.must_not(d, what, order):
        if not ok:
            raise Violation(f"{where}{what} raised {type(got).__name__}: {str(got)[:160]}: the "
                            f"model has a unique stable solution", 'refused')
        R.ctx.judged()
    if R.asked is not None and st != R.asked and st is not None:
        R.ctx.probe('requests judged after the verdict had changed')
        R.ctx.probe(f"verdict {R.asked} -> {st}")
    R.asked = st


def request(R, s, op, where):
    m, d = s.m, s.defn
    R.ctx.op('request ' + (op.get('q') or op['op']))
    if 'q' in op:
        arg, out = ask(m, d, op)
        if op['q'] in sut.NEEDS_SOLUTION:
            verdict(R, s, op['q'], out, s.in_force, where)
        if R.judge.standing(d) == 'unique' or op['q'] not in sut.NEEDS_SOLUTION:
            if R.judge.standing(d) not in ('singular', 'repeated equation'):
                R.oracle.judge(d, s.in_force, op['q'], arg, out, where)
        R.ctx.log(op['q'], out[0], out[1] if out[0] else type(out[1]).__name__)
        return
    k = op['op']
    if k == 'verify':
        out = outcome(lambda: m.statespace.verify())
    elif not d.exprs or not d.endog:
        return
    else:
        out = outcome(p04.request, m, d, op)
    R.ctx.log(k, out[0], None if out[0] else type(out[1]).__name__)
    if k == 'occbin' and not out[0]:
        # the alternative regime may be at fault
        if not R.judge.must_raise(d):
            return
    verdict(R, s, k if k != 'simulate' else 'sim', out, op.get('order', 1), where)
    if out[0] and k in ('solve', 'simulate'):
        s.order = op['order']
    if out[0] and k == 'occbin':
        m.solve(order=s.in_force)
        s.order = s.in_force


def run(scn, ctx):
    if 'lagless' in scn:
        return run_lagless(scn, ctx)
    R = Run(scn, ctx)
    for n, op in enumerate(scn['ops']):
        ctx.time += 1
        where = f"operation {n} ({op.get('q') or op['op']}): "
        ctx.log(n, op.get('q') or op['op'], R.judge.standing(R.s.defn))
        if op.get('op') in HANDLERS:
            try:
                HANDLERS[op['op']](R, R.s, op, where)
            except Stop:
                return
        elif 'q' in op:
            request(R, R.s, op, where)
        else:
            R.s.edit(op)
    # the verdict, once more, in full, for all that's left
    rng = Rng('final', scn['final'])
    for s in [R.s] + R.others:
        names = rng.sample(REQUESTS, 5)
        for i, q in enumerate(names + ['eigen']):
            request(R, s, {'q': q, 's': f"f{i}"}, f"in the end{s.where() or ', '}")
    R.s.expect_definition('everything')


def strike(R, s, op, where):
    t, m, before = op['target'], s.m, s.defn
    name = t.get('q') or t['op']
    is_request = 'q' in t or t['op'] in HANDLERS
    if is_request and t.get('op') == 'occbin':
        t = {'op': 'solve', 'order': 1}
    if not before.exprs or not before.endog:
        return
    after = None
    if not is_request:
        try:
            after = apply_ref(before, t)
        except (Rejected, IndexError, KeyError):
            return

    def perform(m):
        if 'q' in t:
            return ask_raw(m, before, t)
        if t['op'] == 'verify':
            return m.statespace.verify()
        if is_request:
            return p04.request(m, before, t)
        return apply_real(m, t)

    twin = outcome(sut.build, before)
    if not twin[0]:
        return
    _, _, inj = faults.attempt(op['kind'], None, perform, twin[1])
    if not inj.count:
        return
    at = faults.moment(inj, op['spread'], op['at'], op['when'])
    was = m.solution_order
    ok, got, inj = faults.attempt(op['kind'], at, perform, m)
    R.ctx.steps += inj.count
    if inj.where is not None:
        R.ctx.fault(op['kind'])
    R.ctx.log(name, op['kind'], inj.where, ok)
    w = f"{where}{name} struck by {op['kind']} at {inj.where}: "
    if not is_request:
        fits = [d for d in (after, before) if not (bad := s.same_definition(d))]
        if ok and after not in fits:
            raise Violation(f"{w}the edit is not in force: {bad}", 'definition')
        if not fits:
            raise Violation(f"{w}the definition is neither that before nor that after: {bad}",
                            'definition')
        if len(fits) == 2 and before.key() != after.key():
            R.ctx.probe('struck edits that cannot be told from none')
            # nothing tells them apart yet: make the edit
            outcome(lambda: [m.params.__setitem__(k, sut.param_arg(v))
                             for k, v in after.params.items()])
            fits = [d for d in (after, before) if not s.same_definition(d)]
            if len(fits) != 1:
                raise Stop
        s.defn = fits[0]
    else:
        if R.judge.must_raise(before) and ok and name in MUST and \
                (name != 'verify' or R.judge.standing(before) != 'illposed'):
            raise Violation(f"{w}it succeeded: the model has no unique stable solution "
                            f"({R.judge.standing(before)})", 'accepted')
    if m.solution_order not in (None, was, t.get('order'), s.in_force):
        raise Violation(f"{w}order {m.solution_order} is in force", 'order')
    if m.solution_order in (1, 2):
        s.order = m.solution_order
    elif m.solution_order is None:
        s.order = None
    # the next request
    q = {'q': REQUESTS[int(op['at'] * 1e6) % len(REQUESTS)], 's': int(op['when'] * 1e6)}
    request(R, s, q, w + 'then ')


MUST = sut.NEEDS_SOLUTION - {'vd', 'vdsel'} | {'solve', 'simulate', 'verify'}


class Stop(Exception):
    """the run can't be followed further"""


def ask_raw(m, d, q):
    arg = gen.query(Rng('arg', q['s']), d, [q['q']])['arg']
    return sut.QUERIES[q['q']](m, arg)


def read(R, s, op, where):
    if s.defn.exprs and s.defn.endog and s.defn.stoch:
        outcome(lambda: p04.read(s.m, s.defn, op['what'], op['s']))
        R.ctx.op('read ' + op['what'])


def copy(R, s, op, where):
    ok, c = outcome(lambda: s.m.copy())
    R.ctx.op('copy')
    if not ok:
        if R.judge.standing(s.defn) not in DECOMPOSABLE:
            return
        raise Violation(f"{where}copying raised {type(c).__name__}: {str(c)[:160]}", 'copy')
    other = Subject(R.ctx, R.oracle, s.defn, model=c, order=None)
    other.order = c.solution_order if c.solution_order in (1, 2) else None
    for i, q in enumerate(('first', 'cov')):
        request(R, other, {'q': q, 's': i}, where + 'the copy: ')
    if op['keep']:
        # carry on with the copy
        R.others.append(Subject(R.ctx, R.oracle, s.defn, model=s.m, order=s.order))
        R.s = other
    else:
        R.others.append(other)
    R.others = R.others[-3:]


def regime(R, s, op, where):
    here = [i for i, e in enumerate(s.defn.exprs) if e[0] == V(op['hinge'])]
    if not here or s.defn.problems():
        return
    from pynare.regimes import RegimeSwitchingModel
    d = s.defn.copy()
    d.exprs[here[0]] = op['eq']
    if d.problems():
        return
    ok, rs = outcome(lambda: RegimeSwitchingModel(s.m, exprs=[{here[0]: ref.expr_text(op['eq'])}]))
    R.ctx.op('regime')
    if not ok:
        if not all(R.judge.standing(x) in DECOMPOSABLE for x in (d, s.defn)):
            return
        raise Violation(f"{where}raised {type(rs).__name__}: {str(rs)[:160]}", 'regime')
    for m, dd, which in ((rs.models[1], d, 'the alternative: '), (rs.models[0], s.defn, '')):
        t = Subject(R.ctx, R.oracle, dd, model=m)
        t.order = m.solution_order if m.solution_order in (1, 2) else None
        request(R, t, {'q': 'first', 's': 0}, where + which)
        request(R, t, {'op': 'verify'}, where + which)


HANDLERS = {'solve': request, 'simulate': request, 'verify': request, 'occbin': request,
            'strike': strike, 'read': read, 'copy': copy, 'regime': regime}


def shrink(scn):
    if 'lagless' in scn:
        yield from shrink_list(scn, 'steps')
        return
    yield from shrink_list(scn, 'ops')
    if scn['how'] != 'ctor':
        yield {**scn, 'how': 'ctor'}
