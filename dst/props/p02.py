"""P02: a failed or interrupted operation never leaves half a result behind"""
from .. import faults, gen, ref, sut
from ..gen import Rejected, apply_real, apply_ref
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import Oracle, Subject, ask, shrink_list

LEVEL = 'exploration'
COUNTS = {'quick': 900, 'thorough': 7000}
LIMIT = 90.
TIME_UNIT = 'operations on a model'
STATE_MEASURE = 'triples (operation, fault kind, source line where it struck)'
RULE = ('One run takes a random model through a seeded history, then strikes one operation (edit, '
        'solve, simulation, query, copy) with several faults - a user interrupt or memory '
        'exhaustion at the k-th executed line of pynare (or, deep, of autograd and scipy), or '
        'the failure of the k-th numerical library call - each on a fresh twin brought to the '
        'same point by replaying the history. Judged: the definition is exactly the one before '
        'or after, every query reports what it implies or raises, the order in force is the '
        'one before or after, and repeating the operation succeeds. Non-trivial: a fault struck.')
REAL = ['all of pynare, autograd, numpy, scipy']
STUB = ['asynchronous exceptions are raised by a line tracer; numerical library entry points '
        'are wrapped to fail on cue']
ASSUMPTIONS = ['interrupts strike between source lines and not on the line of a `with` '
               'statement, whose exit CPython does not let programs protect',
               'what a definition that cannot be evaluated reports after two interrupts at once '
               'is not judged']

TARGETS = ['edit', 'edit', 'edit', 'query', 'query', 'solve', 'simulate', 'copy', 'occbin']


def plan(rng, i, tier):
    d = gen.model(rng.child('m'), tiny=rng.random() < .2, max_n=4)
    start, ops = d, []
    for _ in range(rng.randint(0, 5)):
        u = rng.random()
        if u < .3:
            op = {'op': 'solve', 'order': rng.choice([1, 2])}
        elif u < .55:
            op = {'q': rng.choice(gen.QUERY_NAMES), 's': rng.randrange(10 ** 6)}
        else:
            op = gen.edit(rng, d, allow_break=.1)
            try:
                d = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                pass
        ops.append(op)
    kind = rng.choice(TARGETS)
    if kind == 'edit':
        for _ in range(20):
            t = gen.edit(rng, d, allow_break=.1) if rng.random() < .75 or \
                not (g := gen.grow(rng, d)) else g[0]
            try:
                apply_ref(d, t)
                break
            except (Rejected, IndexError, KeyError):
                continue
        if rng.random() < .3:
            # many at once
            p = [n for n in gen.PARAM if n not in d.params][:3]
            t = {'op': 'set_params', 'values': [[n, round(rng.uniform(.1, .9), 3)] for n in p]
                 + [[k, gen.perturbed(rng, d.params[k])] for k in gen.numeric_params(d)[:1]],
                 'how': rng.choice(['add', 'update'])}
    elif kind == 'query':
        t = {'q': rng.choice(rng.choice([LASTING, gen.QUERY_NAMES])), 's': rng.randrange(10 ** 6)}
    elif kind == 'solve':
        t = {'op': 'solve', 'order': rng.choice([1, 2])}
    elif kind == 'simulate':
        t = {'op': 'simulate', 'order': rng.choice([0, 1, 2]), 'periods': rng.randint(2, 6)}
    elif kind == 'copy':
        t = {'op': 'copy'}
    else:
        t = {'op': 'occbin'}
    n = rng.randint(2, 5) if tier == 'quick' else rng.randint(4, 10)
    strikes = []
    for _ in range(n):
        strikes.append({'kind': rng.choice(faults.IMPATIENT if rng.random() < .2 else
                                           faults.FAULTS), 'at': round(rng.random(), 6),
                        'when': round(rng.random(), 6), 'spread': rng.random() < .7,
                        'retry': rng.choice([None, None, None, round(rng.random(), 6)]),
                        'order': asks(rng, t),
                        'seed': rng.randrange(10 ** 6)})
    return {'model': start.dump(), 'ops': ops, 'target': t, 'strikes': strikes,
            'warm': rng.random() < .5}


# what is computed once and kept
LASTING = ['ss', 'jac', 'hess', 'sigma', 'eigen', 'first', 'solution', 'ssjac', 'steady', 'dyn']


def asks(rng, t):
    """what is asked after a fault: often first what the operation was to compute"""
    out = rng.sample(gen.QUERY_NAMES, rng.randint(4, 7))
    first = [t['q']] if 'q' in t else ['solution', 'sim', 'mean'] if t['op'] != 'copy' else []
    first = rng.choice([[], rng.sample(first, min(1, len(first))),
                        rng.sample(LASTING, rng.randint(1, 3))])
    return first + [q for q in out if q not in first]


def orders(*known):
    """a model nobody asked a solution of gets the default one from the first query"""
    return {*known, 2} if None in known else set(known)


def perform(m, defn, t):
    """the target operation on the real model; returns whatever it returns"""
    if 'q' in t:
        arg = gen.query(Rng('arg', t['s']), defn, [t['q']])['arg']
        return sut.QUERIES[t['q']](m, arg)
    k = t['op']
    if k == 'solve':
        return m.solve(order=t['order'])
    if k == 'simulate':
        z = [[.1 * ((3 * i + j) % 4 - 1) for j in range(len(defn.stoch))]
             for i in range(t['periods'])]
        import numpy as np
        return m.simulate(shocks=np.array(z), order=t['order']).paths
    if k == 'copy':
        return m.copy()
    if k == 'occbin':
        v = defn.endog_names[0]
        l, r = defn.exprs[0]
        # a constraint that never binds
        return m.solve(constraint=[f"{v} < {-10 ** 6}.0", f"{v} > {-10 ** 6 + 1}.0"],
                       exprs={0: ref.expr_text([l, gen.add(r, gen.N(.01))])},
                       shocks=[.1, 0., .1], periods=6)
    return apply_real(m, t)


class Point:
    """a model brought to the point just before the target"""

    def __init__(self, scn, ctx, oracle):
        quiet = type(ctx)()
        s = Subject(quiet, oracle, Defn.load(scn['model']))
        for op in scn['ops']:
            if 'q' in op:
                s.query(op, judge=False)
            elif op['op'] == 'solve':
                s.solve(op['order'])
            else:
                s.edit(op)
        if scn['warm']:
            for i, q in enumerate(('solution', 'cov', 'hess')):
                s.query({'q': q, 's': i}, judge=False)
        s.ctx = ctx
        self.s = s


def run(scn, ctx):
    oracle = Oracle(ctx)
    t = scn['target']
    name = t.get('q') or t['op']
    s0 = Point(scn, ctx, oracle).s
    before = s0.defn
    after = before
    if 'q' not in t and t['op'] not in ('solve', 'simulate', 'copy', 'occbin'):
        try:
            after = apply_ref(before, t)
        except (Rejected, IndexError, KeyError):
            after = None
    ctx.op('target ' + name)

    # without a fault: what it should do
    from ..world import outcome
    clean_ok, clean = outcome(perform, s0.m, before, t)
    clean_order = s0.m.solution_order
    ctx.log('clean', name, clean_ok)
    if after is None and clean_ok:
        raise Violation(f"{name} was accepted although it cannot be made: {t}", 'accepted')
    if after is not None and not clean_ok and oracle.view(before).kind == 'unique':
        raise Violation(f"{name} raised {type(clean).__name__}: {clean}", 'raised')

    counts = {}
    for n, st in enumerate(scn['strikes']):
        kind = st['kind']
        if kind not in counts:
            s = Point(scn, ctx, oracle).s
            _, _, inj = faults.attempt(kind, None, perform, s.m, before, t)
            counts[kind] = inj
            ctx.steps += inj.count
        if not counts[kind].count:
            continue
        at = faults.moment(counts[kind], st['spread'], st['at'], st['when'])
        strike(scn, ctx, oracle, n, st, at, name, before, after, clean_ok, clean_order,
               counts[kind].count)


def strike(scn, ctx, oracle, n, st, at, name, before, after, clean_ok, clean_order, total):
    t = scn['target']
    s = Point(scn, ctx, oracle).s
    m = s.m
    old_order = m.solution_order
    ok, got, inj = faults.attempt(st['kind'], at, perform, m, before, t)
    ctx.steps += inj.count
    if inj.where is None:
        return                              # the last lines were context exits
    ctx.fault(st['kind'])
    ctx.state(name, st['kind'], inj.where)
    ctx.log(n, st['kind'], at, inj.where, ok, None if ok else type(got).__name__)
    where = f"after {name} was struck ({st['kind']} at {inj.where}, {at} of {total}): "
    ctx.time += 1

    if st['retry'] is not None and not ok:
        # strike again while it is being repeated
        ok, got, inj2 = faults.attempt(st['kind'], 1 + int(st['retry'] * total), perform, m,
                                       before, t)
        if inj2.where is not None:
            ctx.fault(st['kind'] + ' (again)')
            ctx.log('again', inj2.where, ok)
            where = where[:-2] + f" and again at {inj2.where}: "

    # which definition is it?
    cands = [d for d in (before, after) if d is not None]
    if ok and after is not None:
        cands = [after]
    fits = []
    for d in cands:
        if all(d.key() != c.key() for c in fits):
            bad = s.same_definition(d)
            if not bad:
                fits.append(d)
    ctx.judged()
    if not fits:
        raise Violation(f"{where}the definition is neither the one before nor the one after: "
                        f"{s.same_definition(cands[0])}", 'definition')

    # the order in force, if it was a solve
    order = m.solution_order
    if t.get('op') in ('solve', 'simulate', 'occbin') or 'q' in t or t.get('op') == 'copy':
        if order not in orders(old_order, clean_order):
            raise Violation(f"{where}order {order} is in force, it was {old_order}", 'order')
    elif order != old_order:
        raise Violation(f"{where}order {order} is in force, it was {old_order}", 'order')
    if isinstance(order, int) and not isinstance(order, bool):
        s.order = order
    elif order is None:
        s.order = None
    asks = st['order']
    if order is None and t.get('op') == 'occbin':
        # an occasionally-binding solution may be in force: linear results don't apply
        asks = [q for q in asks if q not in ('solution', 'irf', 'sim', 'mean', 'summary')]

    answers = []
    for i, q in enumerate(asks):
        for d in fits[:1]:
            answers.append((q, *ask(m, d, {'q': q, 's': f"{st['seed']}.{i}"})))
            ctx.log(q, answers[-1][2][0], answers[-1][2][1] if answers[-1][2][0] else
                    type(answers[-1][2][1]).__name__)
    problems = []
    for d in fits:
        try:
            for q, arg, out in answers:
                if not out[0] and oracle.view(d).kind == 'unique':
                    raise Violation(f"{where}{q} raised {type(out[1]).__name__}: {out[1]}",
                                    'raised')
                if out[0] and not (' again after ' in st['kind'] and
                                   oracle.view(d).kind == 'illposed'):
                    oracle.judge(d, s.in_force, q, arg, out, where)
            s.defn = d
            break
        except Violation as e:
            problems.append(e)
    else:
        raise problems[0]

    # repeating it succeeds
    again = not (t.get('op') in ('del_param', 'del_expr', 'insert_expr', 'add_exprs',
                                 'add_endog', 'add_stoch') and s.defn.key() != before.key())
    if again and clean_ok and after is not None:
        from ..world import outcome
        ok2, got2 = outcome(perform, m, before, t)
        ctx.log('repeat', ok2)
        if not ok2:
            raise Violation(f"{where}repeating it raised {type(got2).__name__}: {got2}",
                            'repeat')
        s.defn = after
        if m.solution_order in (1, 2):
            s.order = m.solution_order
        bad = s.same_definition()
        if bad:
            raise Violation(f"{where}after repeating it: {bad}", 'repeat')
        if m.solution_order not in orders(clean_order):
            raise Violation(f"{where}after repeating it order {m.solution_order} is in force, "
                            f"not {clean_order}", 'order')
        if 'q' in t:
            arg = gen.query(Rng('arg', t['s']), before, [t['q']])['arg']
            oracle.judge(after, s.in_force, t['q'], arg, (True, got2), where + 'repeated ')
        asks = [q for q in ('ss', 'jac', 'first', 'cov', 'sim', 'mean')
                if t.get('op') != 'occbin' or q not in ('sim', 'mean')]
        for i, q in enumerate(asks[:3] if n else asks):
            arg, out = ask(m, s.defn, {'q': q, 's': f"r{i}"})
            oracle.judge(s.defn, s.in_force, q, arg, out, where + 'repeated, ')


def shrink(scn):
    if len(scn['strikes']) > 1:
        for st in scn['strikes']:
            yield {**scn, 'strikes': [st]}
    yield from shrink_list(scn, 'ops')
    if scn['warm']:
        yield {**scn, 'warm': False}
    if len(scn['strikes']) == 1:
        st = scn['strikes'][0]
        if st['retry'] is not None:
            yield {**scn, 'strikes': [{**st, 'retry': None}]}
        for q in st['order']:
            if len(st['order']) > 1:
                yield {**scn, 'strikes': [{**st, 'order': [q]}]}
