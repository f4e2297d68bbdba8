"""P01: everything a model reports reflects its current definition"""
from .. import gen
from ..gen import apply_ref, Rejected
from ..ref import Defn
from ..world import Oracle, Subject, shrink_list

LEVEL = 'exploration'
COUNTS = {'quick': 700, 'thorough': 8000}
LIMIT = 60.
TIME_UNIT = 'operations on a model'
STATE_MEASURE = 'sequences (edit kinds since the last query, query kind, standing of the definition)'
RULE = ('One run is a random well-behaved model (or one that an edit makes unusable, explosive or '
        'indeterminate on the way) taken through a seeded history of accepted edits, rejected '
        'edits, solve requests and queries; a judgement compares one reported result, or the '
        "model's whole definition, with the independent reference model of the definition in "
        'force. Non-trivial: at least one result was judged. Distinct: the bit-for-bit digest '
        'of everything observed differs.')
REAL = ['all of pynare: parsing, variables, expressions, linearisation, steady state, state '
        'space, first/second-order solvers, moments, simulation, impulse responses, summaries']
STUB = ['none; numpy global random state and hash seed are fixed by the simulator']
ASSUMPTIONS = ['the reference in dst/ref.py (forward jets, cyclic reduction, vectorised linear '
               'systems) is right', 'definitions within 4% of a stability boundary are not judged '
               'for solvability', 'steady states the conjugate-gradient search cannot reach are '
               'not judged (property P15)']

FAULTS = ['rejected edit', 'edit leaves model unusable', 'edit crosses stability boundary',
          'failing solve request']


def plan(rng, i, tier):
    profile = rng.choice(['edits', 'grow', 'break', 'params', 'mixed', 'mixed'])
    d = gen.model(rng.child('m'), tiny=rng.random() < .15)
    start = d
    ops = []
    n = rng.randint(4, 9 if tier == 'quick' else 16)
    pending = []
    while len(ops) < n:
        u = rng.random()
        if pending and u < .6:
            op = pending.pop(0)
        elif u < .12:
            ops.append({'op': 'solve', 'order': rng.choice([1, 1, 2, 2, 3])})
            continue
        elif u < .45:
            ops.append({'q': rng.choice(gen.QUERY_NAMES), 's': rng.randrange(10 ** 6)})
            continue
        elif u < .55:
            op = gen.bad_op(rng, d)
        elif profile == 'grow' and not pending and u < .75:
            pending = gen.grow(rng, d)
            continue
        elif profile == 'params':
            op = gen.param_edit(rng, d)
        else:
            op = gen.edit(rng, d, allow_break=.6 if profile == 'break' else .15)
        try:
            d = apply_ref(d, op)
        except (Rejected, IndexError, KeyError):
            pass
        ops.append(op)
    return {'model': start.dump(), 'how': rng.choice(['ctor', 'ctor', 'text', 'file']),
            'ops': ops, 'final': rng.randrange(10 ** 6),
            'warm': rng.choice([[], ['solution'], ['cov', 'irf'], gen.QUERY_NAMES])}


def run(scn, ctx):
    oracle = Oracle(ctx)
    s = Subject(ctx, oracle, Defn.load(scn['model']), scn['how'])
    s.expect_definition('construction')
    s.battery(scn['warm'], 'warm') if scn['warm'] else None
    kinds = []
    for op in scn['ops']:
        ctx.time += 1
        if 'q' in op:
            s.query(op)
            ctx.state(kinds[-3:], op['q'], oracle.view(s.defn).kind)
            kinds = []
            continue
        if op['op'] == 'solve':
            if not s.solve(op['order']):
                ctx.fault('failing solve request')
            continue
        before = oracle.view(s.defn).kind
        s.edit(op)
        kinds.append(op.get('what', op['op']))
        s.expect_definition(op['op'])
        after = oracle.view(s.defn).kind
        if before != after:
            if after == 'illposed':
                ctx.fault('edit leaves model unusable')
            elif 'nonunique' in (before, after):
                ctx.fault('edit crosses stability boundary')
    names = list(gen.QUERY_NAMES)
    from ..kernel import Rng
    Rng(scn['final']).shuffle(names)
    s.battery(names[:scn.get('n_final', 9)], scn['final'])


def shrink(scn):
    for k in (1, 2, 4):
        if scn.get('n_final', 9) > k:
            yield {**scn, 'n_final': k}
    if scn['warm']:
        yield {**scn, 'warm': []}
        yield {**scn, 'warm': scn['warm'][:1]}
    if scn['how'] != 'ctor':
        yield {**scn, 'how': 'ctor'}
    yield from shrink_list(scn, 'ops')
