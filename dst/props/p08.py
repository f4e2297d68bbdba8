"""P08: randomness enters only through the caller-controlled generator"""
import random

import numpy as np

from .. import faults, gen, ref, sut
from ..gen import Rejected, apply_ref
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import Oracle, Subject, ask, construct, outcome, shrink_list
from . import p04

LEVEL = 'exploration'
COUNTS = {'quick': 1300, 'thorough': 12000}
LIMIT = 90.
TIME_UNIT = 'operations on models sharing one generator'
STATE_MEASURE = ('triples (operation, order in force and standing of the definition, whether the '
                 'generator holds a cached draw)')
RULE = ('One run is a seeded history of generated and explicit simulations, random '
        'occasionally-binding solves, edits, queries, printing, plots, loads, failing and '
        'interrupted requests on models sharing the global generator, which the caller seeds, '
        'draws from, saves and restores in between. The state of the generator before and after '
        'every operation is compared with the one that exactly one standard normal per period '
        'and shock leads to, or with an untouched one; innovations with those draws times a '
        'factor of the reference covariance; paths with the reference recursion, with the same '
        'draws supplied explicitly and, bit for bit, with a repetition. Non-trivial: a '
        'generated path was judged.')
REAL = ["all of pynare; numpy's global generator itself"]
STUB = ['none; the generator is observed and set through its public state']
ASSUMPTIONS = ['an operation struck by a fault while generating its own shocks may have drawn them '
               'or not', 'occasionally-binding solves draw standard normals for the shocks named, '
               'as documented, in units of the innovation itself']

OTHER = [r for r in p04.READS if r not in ('random_sim', 'sim_stats', 'plot_sim', 'bad_sim')]


def plan(rng, i, tier):
    models = [gen.model(rng.child('m', k), tiny=rng.random() < .15, max_n=4)
              for k in range(rng.choice([1, 1, 2]))]
    now = list(models)
    n = rng.randint(9, 15) if tier == 'quick' else rng.randint(12, 30)
    ops = []
    while len(ops) < n:
        k = rng.randrange(len(now))
        d = now[k]
        u = rng.random()
        if u < .34:
            op = {'op': 'gen', 'periods': rng.choice([1, 2, 3, 5, 8, 20]),
                  'order': rng.choice([0, 0, 1, 2]), 'init': rng.random() < .3,
                  's': rng.randrange(10 ** 6)}
        elif u < .42:
            op = {'op': 'again', 'which': rng.randrange(100), 'how': rng.choice(
                ['same', 'same', 'copy', 'fresh'])}
        elif u < .48:
            op = {'op': 'occgen', 'n': rng.choice([1, 2, 4]), 'many': rng.random() < .5,
                  'periods': rng.choice([6, 12])}
        elif u < .60:
            op = {'op': 'user', 'what': rng.choice(['seed', 'draw', 'draw', 'save', 'restore',
                                                    'uniform', 'shuffle']),
                  's': rng.randrange(10 ** 6)}
        elif u < .74:
            op = {'op': 'read', 'what': rng.choice(OTHER), 's': rng.randrange(10 ** 6)}
        elif u < .80:
            op = {'q': rng.choice(gen.QUERY_NAMES), 's': rng.randrange(10 ** 6)}
        elif u < .84:
            op = {'op': 'badsolve', 'what': rng.choice(p04.BAD)}
        elif u < .88:
            op = {'op': 'load', 'style': rng.choice([0, 1]),
                  'cut': round(rng.random(), 4) if rng.random() < .4 else None}
        elif u < .92:
            op = {'op': 'strike', 'kind': rng.choice(faults.FAULTS), 'at': round(rng.random(), 6),
                  'when': round(rng.random(), 6),
                  'target': rng.choice(['solve1', 'solve2', 'irf', 'summary', 'gen', 'explicit'])}
        elif u < .95:
            op = {'op': 'solve', 'order': rng.choice([1, 2])}
        else:
            op = gen.edit(rng, d, allow_break=.15)
            try:
                now[k] = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                pass
        op['k'] = k
        ops.append(op)
    return {'models': [m.dump() for m in models], 'seed': rng.randrange(2 ** 31), 'ops': ops}


# ---------------------------------------------------------------------------------
def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], float(s[4]).hex(), random.getstate())


class Elsewhere:
    """the same generator at the same point, without touching the global one"""

    def __init__(self):
        self.g = np.random.RandomState()
        self.g.set_state(np.random.get_state())

    def normal(self, size):
        return self.g.normal(size=size)

    def state(self):
        s = self.g.get_state()
        return (s[0], s[1].tobytes(), s[2], s[3], float(s[4]).hex(), random.getstate())


class Run:
    def __init__(self, scn, ctx):
        self.ctx, self.oracle = ctx, Oracle(ctx)
        self.subjects = [Subject(ctx, self.oracle, Defn.load(d), label=f"model {k}")
                         for k, d in enumerate(scn['models'])]
        self.saved, self.past = None, []
        np.random.seed(scn['seed'])
        random.seed(scn['seed'])

    def untouched(self, before, what):
        self.ctx.judged()
        if state() != before:
            raise Violation(f"{what} consumed or reset the generator", 'consumed')


def run(scn, ctx):
    R = Run(scn, ctx)
    for n, op in enumerate(scn['ops']):
        ctx.time += 1
        s = R.subjects[op['k']]
        name = op.get('op', 'query')
        kind = R.oracle.view(s.defn).kind
        ctx.state(name, op.get('what', op.get('target')), s.order, kind,
                  bool(np.random.get_state()[3]))
        before = state()
        where = f"operation {n} on {s.label}: "
        ctx.log(n, name, kind)
        if name in HANDLERS:
            HANDLERS[name](R, s, op, where, before, kind)
        elif name == 'query':
            s.query(op, judge=False)
            R.untouched(before, f"{where}the query {op['q']}")
        else:
            s.edit(op)
            R.untouched(before, f"{where}the edit {op['op']}")


def user(R, s, op, where, before, kind):
    w = op['what']
    R.ctx.fault('caller uses the generator: ' + w)
    if w == 'seed':
        np.random.seed(op['s'])
    elif w == 'draw':
        np.random.normal(size=1 + op['s'] % 4)      # an odd number leaves one in the cache
    elif w == 'uniform':
        np.random.uniform(size=1 + op['s'] % 4)
    elif w == 'shuffle':
        np.random.permutation(5)
    elif w == 'save':
        R.saved = np.random.get_state()
    elif w == 'restore' and R.saved is not None:
        np.random.set_state(R.saved)


def factor(s, where):
    """how standardised shocks become innovations"""
    nu = len(s.defn.stoch)
    before = state()
    F = np.array(s.m.simulate(shocks=np.eye(nu)).shocks)
    if state() != before:
        raise Violation(f"{where}a simulation of given shocks consumed the generator", 'consumed')
    want = s.defn.sigma()
    if not sut.close(F.T @ F, want, 1e-9):
        raise Violation(f"{where}standardised shocks are given the covariance {sut.brief(F.T @ F)}"
                        f", the definition's is {sut.brief(want)}", 'covariance')
    return F


def generate(R, s, op, where, before, kind):
    T, nu = op['periods'], len(s.defn.stoch)
    kw = {'periods': T}
    if op['order']:
        kw['order'] = op['order']
    init = None
    if op['init'] and kind == 'unique':
        g = Rng('init', op['s'])
        init = R.oracle.view(s.defn).ss + np.array([g.uniform(-.1, .1) for _ in s.defn.endog])
        kw['init'] = init
    twin = Elsewhere()
    start = np.random.get_state()
    ok, got = outcome(lambda: s.m.simulate(**kw))
    R.ctx.op(f"generate {op['order']}")
    noise = twin.normal((T, nu)) if nu else np.zeros((T, 0))
    if kind != 'unique':
        if ok and op['order']:
            s.order = op['order']
        if state() not in (before, twin.state()):
            raise Violation(f"{where}a simulation of {T} periods and {nu} shocks left the "
                            "generator where neither no draws nor all of them would", 'draws')
        if op['order'] and not ok:
            pass
        return
    if not ok:
        raise Violation(f"{where}simulate raised {type(got).__name__}: {str(got)[:160]}", 'raised')
    if op['order']:
        s.order = op['order']
    R.ctx.judged()
    if state() != twin.state():
        raise Violation(f"{where}a simulation of {T} periods and {nu} shocks left the generator "
                        f"where {T}x{nu} standard normals would not", 'draws')
    F = factor(s, where)
    paths, shocks = np.array(got.paths), np.array(got.shocks)
    if not sut.close(shocks, noise @ F, 1e-9):
        raise Violation(f"{where}innovations {sut.brief(shocks)} are not the standard normals "
                        f"drawn times the covariance's factor, {sut.brief(noise @ F)}",
                        'innovations')
    v = R.oracle.view(s.defn)
    want = v.solved.path(s.in_force, shocks, init)
    fine = np.isfinite(want).all() and np.abs(want).max() < 1e6
    if fine and not sut.close(paths, want, 1e-6):
        raise Violation(f"{where}path {sut.brief(paths)}, the order-{s.in_force} decision rule "
                        f"gives {sut.brief(want)}", 'path')
    kw2 = {k: x for k, x in kw.items() if k not in ('order', 'periods')}
    at = state()
    same = s.m.simulate(shocks=noise, **kw2)
    R.untouched(at, f"{where}a simulation of given shocks")
    if fine and not (sut.close(same.paths, paths, 1e-9) and sut.close(same.shocks, shocks, 1e-9)):
        raise Violation(f"{where}the same standardised shocks supplied explicitly give "
                        f"{sut.brief(same.paths)} instead of {sut.brief(paths)}", 'explicit')
    if np.abs(want[-1] - want[0]).max() > 0 and T > 1:
        R.ctx.probe('generated paths judged')
    if start[3]:
        R.ctx.probe('generated with a draw cached by the caller')
    R.ctx.judged()
    R.ctx.log(paths, shocks)
    R.past.append((op['k'], s.defn, s.in_force, start, kw, paths, shocks, s.m))


def again(R, s, op, where, before, kind):
    """the generator put back where it was when a path was generated"""
    if not R.past:
        return
    k, d, order, start, kw, paths, shocks, m = R.past[op['which'] % len(R.past)]
    t = R.subjects[k]
    exact = op['how'] == 'same'
    if op['how'] == 'fresh':
        m = construct(d, 'ctor')
        m.solve(order=order)
    elif t.defn.key() != d.key() or t.in_force != order or t.m.solution_order not in (None, order):
        return
    elif op['how'] == 'copy':
        m = m.copy()
        m.solve(order=order)
    here = np.random.get_state()
    np.random.set_state(start)
    r = m.simulate(**{a: b for a, b in kw.items() if a != 'order'})
    np.random.set_state(here)
    R.ctx.fault('generator put back')
    R.ctx.judged()
    eq = (lambda a, b: np.array_equal(a, b, equal_nan=True)) if exact else \
        (lambda a, b: sut.close(a, b, 1e-7))
    if np.abs(paths).max() < 1e6 or exact:
        if not (eq(np.array(r.paths), paths) and eq(np.array(r.shocks), shocks)):
            raise Violation(f"{where}the same generator state ({op['how']} model) gave "
                            f"{sut.brief(r.paths)} instead of {sut.brief(paths)}", 'reproduce')


def occgen(R, s, op, where, before, kind):
    if kind != 'unique' or not s.defn.exprs:
        return
    d = s.defn
    v = d.endog_names[0]
    l, r = d.exprs[0]
    nu = len(d.stoch)
    exog = None
    size = op['n']
    if op['many']:
        exog = d.stoch_names[:max(1, min(2, nu))]
        size = (op['n'], len(exog))
    kw = dict(constraint=[f"{v} < {-10 ** 7}", f"{v} > {-10 ** 7}"],
              exprs={0: ref.expr_text([l, gen.add(r, gen.N(.01))])}, periods=op['periods'])
    if exog is not None:
        kw['exog'] = exog
    m = s.m.copy()
    twin = Elsewhere()
    noise = twin.normal(size)
    before = state()
    ok, got = outcome(lambda: m.solve(shocks=size, **kw))
    if not ok:
        raise Violation(f"{where}a random occasionally-binding solve raised "
                        f"{type(got).__name__}: {str(got)[:160]}", 'raised')
    R.ctx.op('random occasionally-binding solve')
    R.ctx.judged()
    if state() != twin.state():
        raise Violation(f"{where}an occasionally-binding solve of shocks {size} left the generator "
                        f"where that many standard normals would not", 'draws')
    before = state()
    same = m.copy().solve(shocks=noise, **kw)
    R.untouched(before, f"{where}an occasionally-binding solve of given shocks")
    drawn, rest = np.split(np.array(got.shocks), [op['n']])      # none after the last
    if not (sut.close(drawn, noise, 1e-12) and not np.any(rest)
            and sut.close(got.paths, same.paths, 1e-9)):
        raise Violation(f"{where}a random occasionally-binding path is not that of the same "
                        f"shocks supplied explicitly", 'explicit')
    R.ctx.log(np.array(got.paths))


def read(R, s, op, where, before, kind):
    ok, got = outcome(lambda: p04.read(s.m, s.defn, op['what'], op['s']))
    R.ctx.op('read ' + op['what'])
    R.untouched(before, f"{where}reading ({op['what']})")


def badsolve(R, s, op, where, before, kind):
    if not s.defn.exprs or not s.defn.endog or not s.defn.stoch:
        return
    ok, got = outcome(lambda: p04.bad_request(s.m, s.defn, op['what']))
    R.ctx.fault('rejected request')
    R.ctx.op('rejected ' + op['what'])
    if ok:
        # accepted all the same (e.g. an edit made it valid): what's in force is not ours
        s.order = s.m.solution_order
        if s.order not in (None, 1, 2):
            s.m.solve(order=2)
    if op['what'] == 'sim_order' and not ok:
        pass
    R.untouched(before, f"{where}a request that fails ({op['what']})")


def load(R, s, op, where, before, kind):
    from pynare.parsing import read_model
    try:
        text = sut.mod_text(s.defn, op['style'])
    except (ArithmeticError, ValueError, ref.Unresolvable):
        return
    if op['cut'] is not None:
        text = text[:int(op['cut'] * len(text))]
        R.ctx.fault('torn text')
    outcome(lambda: sut.pn().Model.from_outline(read_model(text, 'dynare'), 'dynare', '').ss)
    R.untouched(before, f"{where}loading a text")


def strike(R, s, op, where, before, kind):
    d, t = s.defn, op['target']
    if not d.stoch or not d.endog:
        return
    nu = len(d.stoch)
    f = {'solve1': lambda m: m.solve(order=1), 'solve2': lambda m: m.solve(order=2),
         'irf': lambda m: m.impulse_response(periods=4),
         'summary': lambda m: (str(m.summary()), str(m.stats.summary())),
         'gen': lambda m: m.simulate(periods=3),
         'explicit': lambda m: m.simulate(shocks=np.ones((3, nu)))}[t]
    ok, m = outcome(s.m.copy)
    if not ok:
        return                          # an unusable definition
    _, _, cnt = faults.attempt(op['kind'], None, f, m)
    if not cnt.count:
        return
    m = s.m.copy()
    before, twin = state(), Elsewhere()
    twin.normal((3, nu))
    at = faults.moment(cnt, True, op['at'], op['when'])
    ok, got, inj = faults.attempt(op['kind'], at, f, m)
    if inj.where is not None:
        R.ctx.fault(op['kind'] + ' during ' + t)
    R.ctx.judged()
    after = state()
    if after != before and (t != 'gen' or after != twin.state()):
        raise Violation(f"{where}{t}, struck by {op['kind']}, moved the generator", 'consumed')


def solve(R, s, op, where, before, kind):
    s.solve(op['order'])
    R.untouched(before, f"{where}solving")


HANDLERS = {'user': user, 'gen': generate, 'again': again, 'occgen': occgen, 'read': read,
            'badsolve': badsolve, 'load': load, 'strike': strike, 'solve': solve}


def shrink(scn):
    yield from shrink_list(scn, 'ops', 1)
    for i, op in enumerate(scn['ops']):
        if op.get('periods', 1) > 1 and op.get('op') == 'gen':
            c = {**scn, 'ops': list(scn['ops'])}
            c['ops'][i] = {**op, 'periods': op['periods'] // 2}
            yield c
