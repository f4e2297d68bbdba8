"""P12: parameters defined through others always have their defined values"""
import math

import numpy as np

from .. import faults, gen, ref, sut
from ..gen import N, P, Rejected, add, mul
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import Oracle, Subject, outcome, shrink_list

LEVEL = 'exploration'
COUNTS = {'quick': 2200, 'thorough': 20000}
LIMIT = 60.
TIME_UNIT = 'operations on a calibration'
STATE_MEASURE = ('triples (operation, how it ended, depth of the dependency graph below what '
                 'it touched)')
RULE = ('One run takes a bare calibration, or that of a model with parameters and local '
        'variables, through a seeded history of assignments (numbers of every kind, text, '
        'parsed expressions; one or many at once; by item, update, add_params, setdefault), '
        'redefinitions, deletions, copies and edits that must fail (unknown names, cycles of '
        'any length, wrong types, unparseable text, expressions without a value, deleting what '
        'others need, an iterable that raises half-way), some struck by an interrupt, memory '
        'exhaustion or a failing call. After each, every value is compared with the '
        "reference's memoised evaluation, and the model's equations with the reference's at "
        'those values; a failed edit must leave definitions and values bit for bit. '
        'Non-trivial: a value was judged.')
REAL = ['all of pynare (calibrations, parsing, models, equations)']
STUB = ['asynchronous exceptions are raised by a line tracer']
ASSUMPTIONS = ['expressions without a finite value may be accepted or refused',
               'deleting a parameter only local variables or equations need is accepted; it is '
               'asking for what needs them that raises']

NAMES = ['p_%s' % c for c in 'abcdefghijklmnopqrstuvwxyz'] + ['zeta', 'Alpha', 'a1', 'u_', 'loglin',
                                                         'express', 'x_']


def gen_expr(rng, env, depth=0):
    """a random expression in the names of `env`, with a value that's neither huge nor tiny"""
    for _ in range(40):
        e = _gen_expr(rng, list(env), depth)
        try:
            v = ref.value(e, {('p', k): x for k, x in env.items()})
        except (ArithmeticError, ValueError, KeyError):
            continue
        if isinstance(v, float) and math.isfinite(v) and (1e-3 < abs(v) < 50 or v == 0.):
            return e
    return N(.5)


def _gen_expr(rng, names, depth):
    u = rng.random()
    if depth > 2 or u < .12:
        return N(rng.uniform(.1, 2)) if rng.random() < .4 or not names else P(rng.choice(names))
    if u < .25 and names:
        return P(rng.choice(names))
    if u < .4:
        return [rng.choice(['neg', 'neg', 'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'atan',
                            'log10', 'abs', 'erf', 'asin', 'acos']),
                _gen_expr(rng, names, depth + 1)]
    op = rng.choice(['+', '-', '*', '/', '^', '+', '*'])
    if op == '^':
        return ['^', _gen_expr(rng, names, depth + 1),
                N(rng.choice([2., .5, 3., -1.])) if rng.random() < .8 or not names else P(rng.choice(names))]
    return [op, _gen_expr(rng, names, depth + 1), _gen_expr(rng, names, depth + 1)]


def weave(rng, d):
    """the parameters of a model defined through a web of new ones, its values unchanged"""
    d = d.copy()
    free = [n for n in NAMES if n not in d.params and n not in d.locals]
    rng.shuffle(free)
    size = rng.choice([0, 2, 4, 4, 8, 12, 18])
    web = {}
    shape = rng.choice(['any', 'any', 'chain', 'fan'])
    hung = [p for p in gen.numeric_params(d) if rng.random() < .6]
    ground = [p for p in d.params if p not in hung and p not in
              {q for h in hung for q in dependents(d.params, h)}]
    for i in range(min(size, len(free))):
        name = free.pop()
        vals = ref.resolve({**d.params, **web})
        if i and rng.random() < .85:
            pick = {'any': list(web) + ground, 'chain': list(web)[-1:],
                    'fan': list(web)}[shape]
            k = rng.randint(1, 3) if shape != 'fan' else len(pick)
            pick = rng.sample(pick, min(k, len(pick)))
            if shape == 'fan' or rng.random() < .3:
                e = P(pick[0])
                for p in pick[1:]:
                    e = add(e, mul(N(rng.uniform(.05, .3)), P(p)))
                e = mul(N(rng.uniform(.4, .8)), e)
            elif shape == 'chain':
                e = add(mul(N(rng.uniform(.4, .8)), P(pick[0])), N(rng.uniform(.1, .3)))
            else:
                e = gen_expr(rng, {p: vals[p] for p in pick})
            web[name] = e
        else:
            web[name] = round(rng.uniform(.2, 1.5), 4)
    vals = ref.resolve({**d.params, **web})
    for p in hung:
        # what the model uses hangs off the web
        ends = [w for w in web if abs(vals[w]) > .05]
        if ends:
            w = rng.choice(ends[-3:])
            ratio = d.params[p] / vals[w]
            d.params[p] = ['*', P(w), N(ratio)] if ratio >= 0 else ['neg', mul(P(w), N(-ratio))]
    items = list({**d.params, **web}.items())
    mode = rng.choice(['as', 'reverse', 'shuffle', 'shuffle'])
    if mode == 'reverse':
        items.reverse()
    elif mode == 'shuffle':
        rng.shuffle(items)
    d.params = dict(items)
    d.param_values()
    return d


BAD = ['unknown', 'self', 'cycle', 'cycle', 'type', 'text', 'zero', 'one_bad', 'one_bad',
       'needed', 'del_unknown', 'iterable', 'pop_unknown', 'add_bad']
TEXTS = ['2 * +', '', '  ', 'b c', '(1', '1)', 'x = 3', '1 2', 'exp', 'exp()', 'exp(1', '3a',
         '2;', '1 ; 2', '2 $ 3', '1..2', '* 2', '2 ^', 'x(-1)']
TYPES = ['none', 'list', 'dict', 'complex', 'array', 'bytes', 'object', 'tuple']
MISTYPED = {'none': None, 'list': [1], 'dict': {}, 'complex': 1j, 'array': np.array([1., 2.]),
            'bytes': b'1', 'object': object(), 'tuple': (1, 2)}


def plan(rng, i, tier):
    if rng.random() < .3:
        d = Defn(params={n: round(rng.uniform(.2, 2), 3) for n in rng.sample(gen.PARAM, 3)})
        bare = True
    else:
        d = gen.model(rng.child('m'), tiny=rng.random() < .3, max_n=3, order2=False)
        bare = False
    d = weave(rng, d)
    start, ops = d, []
    n = rng.randint(8, 18) if tier == 'quick' else rng.randint(12, 40)
    tries = 0
    while len(ops) < n and tries < 200:
        tries += 1
        op = make(rng, d, bare)
        if op is None:
            continue
        try:
            d = apply(d, op)
        except Rejected:
            pass
        ops.append(op)
    return {'model': start.dump(), 'bare': bare, 'ops': ops,
            'how': rng.choice(['ctor', 'ctor', 'text', 'file'])}


def make(rng, d, bare):
    u = rng.random()
    where = 'locals' if not bare and rng.random() < .15 else 'params'
    defs = getattr(d, where)
    try:
        env = d.scope() if where == 'locals' else d.param_values()
    except (ref.Unresolvable, ArithmeticError, ValueError):
        # local variables left without a value. see to it
        where, defs, env = 'locals', d.locals, d.param_values()
        return {'op': 'set', 'in': 'locals', 'how': 'update', 'as': 'num',
                'values': [[k, .5] for k in d.locals]}
    op = None
    if u < .5:
        op = {'op': 'set', 'in': where, 'how': rng.choice(
            ['item', 'item', 'update', 'pairs', 'kwargs', 'default'] +
            (['add'] if where == 'params' else [])),
            'as': rng.choice(['text', 'text', 'ast', 'num', 'int', 'np', 'np32'])}
        vals = []
        for _ in range(1 if op['how'] in ('item', 'default') else rng.choice([1, 1, 2, 3, 6])):
            name = rng.choice(list(defs) + [rng.choice(NAMES)]) if defs else rng.choice(NAMES)
            if name in [v[0] for v in vals]:
                continue
            if op['as'] in ('text', 'ast'):
                pool = dict(env)
                for v in vals:
                    pool.setdefault(v[0], .7)
                pick = rng.sample(sorted(pool), min(len(pool), rng.randint(1, 3)))
                old = pool.get(name)
                pick = [p for p in pick if p != name] or ([] if rng.random() < .9 else [name])
                e = gen_expr(rng, {p: pool.get(p, .7) for p in pick})
                if old is not None and rng.random() < .7:
                    # about the same value by another route
                    try:
                        v = ref.value(e, {('p', p): pool.get(p, .7) for p in pick})
                        if abs(v) > .02:
                            r = round(old / v * rng.uniform(.9, 1.1), 5)
                            e = mul(e, N(r)) if r >= 0 else ['neg', mul(e, N(-r))]
                    except (ArithmeticError, ValueError):
                        pass
                vals.append([name, e])
            else:
                old = env.get(name, .5)
                v = round(old * rng.uniform(.85, 1.15), 5)
                if op['as'] in ('int', 'np32'):
                    v = float(round(v)) if rng.random() < .3 or name not in env else v
                vals.append([name, v])
        op['values'] = vals
    elif u < .62 and defs:
        op = {'op': 'del', 'in': where, 'name': rng.choice(list(defs)),
              'how': rng.choice(['del', 'pop', 'pop'])}
    elif u < .65 and defs:
        op = {'op': 'popitem', 'in': where}
    elif u < .66 and (bare or where == 'locals'):
        op = {'op': 'clear', 'in': where}
    elif u < .70:
        op = {'op': 'copy', 'in': where, 'how': rng.choice(['copy', 'copy', 'rebuild'])}
    elif u < .78 and not bare:
        op = {'op': 'query', 'q': rng.choice(['ss', 'jac', 'first', 'cov', 'dyn', 'solution']),
              's': rng.randrange(10 ** 6)}
        return op
    elif defs:
        op = bad(rng, d, where, env)
    if op is not None and rng.random() < .12 and op['op'] in ('set', 'del', 'bad', 'clear'):
        op['strike'] = {'kind': rng.choice(['interrupt', 'interrupt', 'memory']),
                        'at': round(rng.random(), 6), 'when': round(rng.random(), 6)}
    return op


def bad(rng, d, where, env):
    defs = getattr(d, where)
    w = rng.choice(BAD)
    names = list(defs)
    op = {'op': 'bad', 'in': where, 'what': w, 'as': rng.choice(['text', 'ast']),
          'name': rng.choice(names + ['newp']),
          'how': rng.choice(['item', 'update', 'kwargs'] + (['add'] if where == 'params' else []))}
    good = [[rng.choice(NAMES + names), round(rng.uniform(.1, 1), 4)] for _ in range(2)]
    good = [g for g in good if g[0] != op['name']]
    if w == 'unknown':
        op['values'] = [[op['name'], add(P('no_such_parameter'), N(1.))]]
    elif w == 'self':
        op['values'] = [[op['name'], mul(P(op['name']), N(1.))]]
    elif w == 'cycle':
        # through a chain of what depends on it, or all at once
        below = dependents(defs, op['name'])
        if below and rng.random() < .7:
            op['values'] = [[op['name'], add(mul(P(rng.choice(below)), N(.5)), N(.1))]]
        else:
            k = rng.randint(2, 5)
            ring = rng.sample(NAMES, k)
            op['values'] = [[ring[j], mul(P(ring[(j + 1) % k]), N(.5))] for j in range(k)]
            op['how'] = 'update'
    elif w == 'type':
        op['type'] = rng.choice(TYPES)
    elif w in ('text', 'add_bad'):
        op['text'] = rng.choice(TEXTS)
    elif w == 'zero':
        op['values'] = [[op['name'], ['/', N(1.), ['-', N(.5), N(.5)]]]]
    elif w == 'one_bad':
        worst = rng.choice([['no_such', None], ['type', rng.choice(TYPES)],
                            ['text', rng.choice(TEXTS)]])
        op['good'], op['worst'] = good, worst
        op['at'] = rng.randint(0, len(good))
    elif w == 'needed':
        used = {n[1] for x in defs.values() if not isinstance(x, (int, float))
                for n in ref.names_of(x)} & set(names)
        if not used:
            return None
        op['name'] = rng.choice(sorted(used))
        op['how'] = rng.choice(['del', 'pop'])
    elif w == 'iterable':
        op['good'] = good
    return op


def dependents(defs, name):
    out, grew = {name}, True
    while grew:
        grew = False
        for k, x in defs.items():
            if k not in out and not isinstance(x, (int, float)) and \
                    any(n[1] in out for n in ref.names_of(x)):
                out.add(k)
                grew = True
    return [k for k in defs if k in out and k != name]


# ---------------------------------------------------------------------------------
def apply(d, op):
    """the reference's side; raises Rejected"""
    what = op.get('what')
    if op['op'] == 'bad' and what not in ('unknown', 'self', 'cycle', 'needed'):
        raise Rejected(what)
    if op['op'] in ('copy', 'query'):
        return d
    new = d.copy()
    defs = getattr(new, op['in'])
    if op['op'] == 'set' or what in ('unknown', 'self', 'cycle'):
        for k, v in op['values']:
            if op['how'] == 'default' and k in defs:
                continue
            defs[k] = v
    elif op['op'] == 'del' or what == 'needed':
        del defs[op['name']]
    elif op['op'] == 'popitem':
        del defs[next(iter(defs))]
    elif op['op'] == 'clear':
        defs.clear()
    try:
        vals = ref.resolve(defs, new.param_values() if op['in'] == 'locals' else None)
    except (ref.Unresolvable, ArithmeticError, ValueError) as e:
        raise Rejected(str(e))
    if any(not math.isfinite(v) for v in vals.values()):
        raise Rejected('no finite value')
    return new


def rng_type(v):
    return np.int64(v) if v % 2 else np.int32(v)


def real_value(v, how):
    if isinstance(v, (int, float)):
        if how == 'np32' and v == int(v):
            return rng_type(v)
        if how == 'int' and v == int(v):
            return int(v)
        return np.float64(v) if how == 'np' else float(v)
    t = ref.to_text(v)
    if how == 'ast':
        from pynare.parsing import parse_string
        return parse_string(t)
    return t


class Boom(Exception):
    pass


class Thing:
    """a calibration, with or without a model around it"""

    def __init__(self, ctx, oracle, d, bare, how):
        self.ctx, self.bare, self.d = ctx, bare, d
        self.s = None
        if bare:
            from pynare.core.variables import ModelCalibration
            self.params = ModelCalibration({k: sut.param_arg(v) for k, v in d.params.items()})
        else:
            if how != 'ctor' and d.locals and any(isinstance(x, (int, float))
                                                  for x in d.locals.values()):
                how = 'ctor'
            self.s = Subject(ctx, oracle, d, how)

    def of(self, where):
        if self.bare:
            return self.params
        return self.s.m.params if where == 'params' else self.s.m.local_params

    def adopt(self, twin):
        if self.bare:
            self.params = twin.params
        else:
            self.s.m = twin.s.m

    def snapshot(self):
        out = []
        for w in ('params',) if self.bare else ('params', 'locals'):
            c = self.of(w)
            ok, vals = outcome(lambda: {k: _bits(v) for k, v in c.items()})
            out.append((w, list(c.defs.items()), vals if ok else type(vals).__name__))
        return out

    def differs(self, snap):
        for w, defs, vals in snap:
            now = dict(self.of(w).defs)
            if list(now) != [k for k, _ in defs]:
                return f"definitions of {sorted(set(now) ^ {k for k, _ in defs}) or 'their order'}"
            for k, x in defs:
                if now[k] is not x and not _same(now[k], x):
                    return f"the definition of {k}"
            ok, v = outcome(lambda: {k: _bits(x) for k, x in self.of(w).items()})
            v = v if ok else type(v).__name__
            if v != vals:
                return f"the values of {w}: {v} instead of {vals}"
        return ''


def _bits(v):
    return float(v).hex()


def _same(a, b):
    return type(a) is type(b) and isinstance(a, (str, int, float)) and a == b


# ---------------------------------------------------------------------------------
def perform(c, m, op):
    """the operation on the real calibration `c` (of model `m`, if any)"""
    k = op['op']
    if k == 'del':
        return c.__delitem__(op['name']) if op['how'] == 'del' else c.pop(op['name'])
    if k == 'popitem':
        return c.popitem()
    if k == 'clear':
        return c.clear()
    if k == 'set':
        vals = [(n, real_value(v, op['as'])) for n, v in op['values']]
        return put(c, m, vals, op['how'])
    w = op['what']
    if w in ('unknown', 'self', 'cycle', 'zero'):
        return put(c, m, [(n, real_value(v, op['as'])) for n, v in op['values']], op['how'])
    if w == 'type':
        return put(c, m, [(op['name'], MISTYPED[op['type']])], op['how'])
    if w == 'text':
        return put(c, m, [(op['name'], op['text'])], op['how'])
    if w == 'add_bad':
        return put(c, m, [('brand_new', .3), (op['name'], op['text'])], 'update')
    if w == 'one_bad':
        vals = list(map(tuple, op['good']))
        kind, x = op['worst']
        v = 'no_such_parameter * 2' if kind == 'no_such' else MISTYPED[x] if kind == 'type' else x
        vals.insert(op['at'], (op['name'], v))
        return put(c, m, vals, op['how'] if op['how'] != 'item' else 'update')
    if w == 'needed':
        return c.__delitem__(op['name']) if op['how'] == 'del' else c.pop(op['name'])
    if w == 'del_unknown':
        return c.__delitem__('no_such_parameter')
    if w == 'pop_unknown':
        return c.pop('no_such_parameter')
    if w == 'iterable':
        def pairs():
            yield from map(tuple, op['good'])
            raise Boom('half-way')
        return c.update(pairs())
    raise KeyError(w)


def put(c, m, vals, how):
    if how == 'item' and len(vals) == 1:
        c[vals[0][0]] = vals[0][1]
    elif how == 'default' and len(vals) == 1:
        c.setdefault(*vals[0])
    elif how == 'pairs':
        c.update(vals)
    elif how == 'kwargs':
        c.update(**dict(vals))
    elif how == 'add' and m is not None:
        m.add_params(**dict(vals))
    else:
        c.update(dict(vals))


def run(scn, ctx):
    oracle = Oracle(ctx)
    d = Defn.load(scn['model'])
    t = Thing(ctx, oracle, d, scn['bare'], scn['how'])
    judge(t, 'construction')
    for n, op in enumerate(scn['ops']):
        ctx.time += 1
        ctx.op(op['op'] if op['op'] != 'bad' else 'bad:' + op['what'])
        if op['op'] == 'query':
            if not t.bare and t.s.defn.exprs:
                t.s.query({'q': op['q'], 's': op['s']})
            continue
        if op['op'] == 'copy':
            copied(t, op)
            judge(t, 'copying')
            continue
        step(t, op, n, ctx)
    judge(t, 'the end')
    if not t.bare:
        for q in ('ss', 'jac', 'steady'):
            t.s.query({'q': q, 's': 1})


def copied(t, op):
    if t.bare:
        from pynare.core.variables import ModelCalibration
        import copy
        old = t.params
        t.params = ModelCalibration(old) if op['how'] == 'rebuild' else copy.deepcopy(old)
    else:
        ok, got = outcome(t.s.m.copy)
        if ok:
            t.s.m = got
        elif not t.s.defn.problems() and t.s.oracle.view(t.s.defn).kind != 'vague':
            raise Violation(f"copying raised {type(got).__name__}: {str(got)[:160]}", 'copy')


def step(t, op, n, ctx):
    d = t.d if t.bare else t.s.defn
    where = op['in'] if not t.bare else 'params'
    maybe = False
    if (op.get('how') in ('default', 'pop') or op['op'] == 'popitem') and where == 'locals' and 'params' in d.problems():
        return                                   # these read what cannot be read
    try:
        new = apply(d, op)
    except KeyError:
        return                                   # shrunk away
    except StopIteration:
        return
    except Rejected as e:
        new = None
        # no value in the reals or not a finite one: python's numbers and numpy's differ
        maybe = op['op'] == 'set' and hopeless(d, op)
    label = op['op'] if op['op'] != 'bad' else 'bad ' + op['what']
    depth = deep(d, where, op)
    c, m = t.of(where), None if t.bare else t.s.m
    snap = t.snapshot()
    st = op.get('strike')
    twin = None
    if maybe or st:
        # a second one, to count on or to go back to
        if not t.bare and d.problems():
            twin = None
        else:
            built, twin = outcome(twin_of, t, d)
            twin = twin if built else None
    if maybe:
        # nothing is known about an edit without a finite value, except that a refusal is one
        if twin is None:
            return
        ok, got = outcome(perform, c, m, op)
        if ok:
            t.adopt(twin)
        elif t.differs(snap):
            raise Violation(f"{label} raised {type(got).__name__} and changed "
                            f"{t.differs(snap)}: {op}", 'half')
        return
    inj = None
    if st and twin is not None:
        inj = faults.attempt(st['kind'], None, perform, twin.of(where),
                             None if t.bare else twin.s.m, op)[2]
    if inj is not None and inj.count:
        at = faults.moment(inj, True, st['at'], st['when'])
        ok, got, inj = faults.attempt(st['kind'], at, perform, c, m, op)
        ctx.steps += inj.count
        if inj.where is not None:
            ctx.fault(st['kind'])
            label += f" struck by {st['kind']} at {inj.where}"
    else:
        ok, got = outcome(perform, c, m, op)
    ctx.log(n, label, ok, '' if ok else type(got).__name__)
    ctx.state(op['op'] if op['op'] != 'bad' else op['what'], ok, depth)
    if new is None:
        ctx.fault('edit that cannot be resolved')
    if ok and new is None:
        raise Violation(f"{label} was accepted although it cannot be resolved: {op}", 'accepted')
    if ok:
        settle(t, new)
        judge(t, label)
        return
    struck = st and ' struck by ' in label
    if not struck and new is not None:
        raise Violation(f"{label} raised {type(got).__name__}: {str(got)[:160]}: {op}", 'refused')
    bad = t.differs(snap)
    ctx.judged()
    if not bad:
        judge(t, label)
        return
    if struck and new is not None:
        # struck after it was done
        settle(t, new)
        wrong = values_differ(t)
        if wrong:
            raise Violation(f"{label} changed {bad}, and it's not done either: {wrong}", 'half')
        judge(t, label)
        return
    raise Violation(f"{label} raised {type(got).__name__} and changed {bad}: {op}", 'half')


def hopeless(d, op):
    new = d.copy()
    defs = getattr(new, op['in'])
    defs.update({k: v for k, v in op['values'] if not (op['how'] == 'default' and k in defs)})
    try:
        vals = ref.resolve(defs, new.param_values() if op['in'] == 'locals' else None)
    except ref.Unresolvable:
        return False
    except (ArithmeticError, ValueError, TypeError):
        return True
    return any(not math.isfinite(v) for v in vals.values())


def twin_of(t, d):
    return Thing(type(t.ctx)(), t.s and t.s.oracle, d.copy(), t.bare, 'ctor')


def settle(t, new):
    if t.bare:
        t.d = new
    else:
        t.s.defn = new


def deep(d, where, op):
    defs = getattr(d, where)
    names = [op['name']] if 'name' in op else [v[0] for v in op.get('values', [])]
    return min(9, max([len(dependents(defs, n)) for n in names if n in defs], default=-1))


def values_differ(t):
    d = t.d if t.bare else t.s.defn
    for w in ('params',) if t.bare else ('params', 'locals'):
        c = t.of(w)
        defs = getattr(d, w)
        try:
            want = ref.resolve(defs, d.param_values() if w == 'locals' else None)
        except (ArithmeticError, ValueError, TypeError):
            continue                             # no finite value, where python's and numpy's differ
        except ref.Unresolvable:
            # a local variable defined through a parameter deleted since
            ok, got = outcome(lambda: dict(c))
            if ok:
                return f"{w} have values {got} although they cannot be evaluated"
            continue
        ok, got = outcome(lambda: {k: c[k] for k in c})
        if not ok:
            return f"reading {w} raised {type(got).__name__}: {str(got)[:100]}"
        if set(got) != set(want):
            return f"{w} {sorted(set(got) ^ set(want))} shouldn't be (or are missing)"
        if len(c) != len(want) or set(c.defs) != set(want):
            return f"{len(c)} {w}, definitions of {sorted(c.defs)} instead of {sorted(want)}"
        for k, v in want.items():
            if k not in c or c.get(k) != got[k]:
                return f"{w}: {k} cannot be found"
            if not abs(float(got[k]) - v) <= 1e-9 * (1 + abs(v)):
                return f"{w}: {k} is {got[k]!r}, its definition evaluates to {v!r}"
        t.ctx.judged(len(want))
    return ''


def judge(t, after):
    bad = values_differ(t)
    if not bad and not t.bare:
        s = t.s
        d = s.defn
        p = set(d.problems())
        try:
            if any(not math.isfinite(v) for v in d.scope().values()):
                p.add('valueless')
        except ref.Unresolvable:
            pass
        except (ArithmeticError, ValueError, TypeError):
            p = {'valueless'}
        if not p:
            bad = s.equations_differ(d)
            if not bad and d.exprs:
                scope = d.scope()
                ok, got = outcome(lambda: dict(s.m.model_scope))
                if not ok or set(got) != set(scope) or \
                        any(abs(got[k] - scope[k]) > 1e-9 * (1 + abs(scope[k])) for k in scope):
                    bad = f"the equations' scope is {got}, it should be {scope}"
        elif p & {'symbol', 'params'} and d.exprs:
            ok, got = outcome(lambda: s.m.steady_repr(np.array([x for _, x in d.endog])))
            if ok:
                bad = f"its equations evaluate to {sut.brief(got)} although they cannot " \
                      f"({', '.join(sorted(p))})"
        t.ctx.judged()
    if bad:
        raise Violation(f"after {after}: {bad}", 'values')


def shrink(scn):
    yield from shrink_list(scn, 'ops')
    if scn['how'] != 'ctor':
        yield {**scn, 'how': 'ctor'}
    for i, op in enumerate(scn['ops']):
        if 'strike' in op:
            c = {**scn, 'ops': list(scn['ops'])}
            c['ops'][i] = {k: v for k, v in op.items() if k != 'strike'}
            yield c
        for key in ('values', 'good'):
            if len(op.get(key, [])) > 1:
                for j in range(len(op[key])):
                    c = {**scn, 'ops': list(scn['ops'])}
                    c['ops'][i] = {**op, key: op[key][:j] + op[key][j + 1:]}
                    yield c
    m = scn['model']
    if scn['bare'] and len(m['params']) > 1:
        for i in range(len(m['params'])):
            yield {**scn, 'model': {**m, 'params': m['params'][:i] + m['params'][i + 1:]}}
