"""P11: a restarted process reproduces the same results"""
import os
import pathlib
import random
import re
import shutil
import tempfile

import numpy as np

from .. import faults, gen, sut, zygote
from ..gen import Rejected, apply_ref
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import construct, outcome, shrink_list
from . import p04, p07

LEVEL = 'exploration'
COUNTS = {'quick': 520, 'thorough': 5000}
LIMIT = 200.
TIME_UNIT = 'items of work performed'
STATE_MEASURE = ('tuples (hash seed, kinds of the items before, kind of the item, crashed before, '
                 'what was asked)')
RULE = ('One run is a seeded list of work - model files to load (generated, bundled, damaged; '
        'with initial values away from the steady state), each with seeded requests, '
        'simulations from a given generator state, edits and failing requests - performed by '
        'several simulated processes that differ in hash seed, working directory, clock, order '
        'of directory listings, memory layout and in what they did before: alone, in permuted '
        'order, after unrelated work that was interrupted or failed, and crashed at a seeded '
        'line after which a new process does the rest. Files under one name have the same size '
        'and modification time and different contents. Every answer must be the same in every '
        'process. Non-trivial: an answer was compared.')
REAL = ['all of pynare, numpy, scipy, autograd; processes forked from interpreters started with '
        'different hash seeds']
STUB = ['the clock (time.time) and the order of directory listings, seeded; crashes are exits at '
        'a seeded source line']
ASSUMPTIONS = ['the same machine, interpreter and libraries',
               'numbers compared within 1e-9 relative (1e-7 after a steady state search)']

MODULE = 'dst.props.p11'


def prepare(tier):
    zygote.start()


# -- scenarios --------------------------------------------------------------------
EXAMPLES = ['simple_linear', 'basic_nk', 'four_eq_nk', 'herbst_schorfheide', 'simple_rbc',
            'optim_ck']
ASK = [q for q in gen.QUERY_NAMES]
READS = [r for r in p04.READS if not r.startswith('plot')]


def plan_item(rng, k, texts):
    u = rng.random()
    item = {'name': rng.choice(['m.mod', 'm.mod', 'other.txt', 'basic_nk.mod', 'sub/m.mod', 'm']),
            'form': rng.choice(['abs', 'rel', 'Path', 'relPath', 'text']), 's': rng.randrange(10 ** 6)}
    d = None
    if u < .60:
        d = gen.model(rng.child('m', k), max_n=4)
        if rng.random() < .35:
            # the steady state has to be searched for
            away = d.copy()
            away.endog = [[n, round(x + rng.uniform(-.1, .1), 3)] for n, x in d.endog]
            item['searched'] = True
            d = away
        item['text'] = sut.mod_text(d, rng.choice([0, 1, 2 if item.get('searched') else 0]))
        item['kind'], item['base'] = 'model', d.dump()
        if rng.random() < .12:
            item['form'], item['defn'] = 'ctor', d.dump()
    elif u < .74:
        item.update(kind='example', name=rng.choice(EXAMPLES[:3] + EXAMPLES), text=None,
                    form=rng.choice(['abs', 'Path']))
    else:
        t = rng.choice(texts)
        if rng.random() < .5:
            t = undeclare(rng, t)
        for _ in range(rng.choice([0, 1, 1, 2])):
            t = p07.damage(rng, t, rng.choice(p07.DAMAGE), rng.choice(texts))
        item.update(kind='damaged', text=t)
    steps = []
    for _ in range(rng.randint(2, 6)):
        v = rng.random()
        if v < .35:
            steps.append(['q', rng.choice(ASK), rng.randrange(10 ** 6)])
        elif v < .5:
            steps.append(['sim', rng.randint(2, 8), rng.choice([0, 1, 2])])
        elif v < .62:
            steps.append(['read', rng.choice(READS), rng.randrange(10 ** 6)])
        elif v < .70:
            steps.append(['solve', rng.choice([1, 2, 3])])
        elif v < .78:
            steps.append(['show'])
        elif v < .84:
            steps.append(['bad', rng.choice(p04.BAD)])
        elif v < .88:
            steps.append(['irf', rng.randint(2, 5)])
        elif v < .93:
            steps.append(['wrong', rng.choice(list(WRONG))])
        elif d is not None:
            op = gen.edit(rng, d, allow_break=.2)
            try:
                d = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                pass
            steps.append(['edit', op])
    item['steps'] = steps + [['show']]
    return item


def relative(rng, item, k):
    """the same work on a model that differs in one respect, if any, from that of `item`"""
    d = Defn.load(item['base'])
    kind = rng.choice(['same', 'param', 'shock', 'second', 'second', 'expr', 'initial'])
    nums = gen.numeric_params(d)
    if kind == 'param' and nums:
        n = rng.choice(nums)
        d.params[n] = gen.perturbed(rng, d.params[n])
    elif kind == 'shock' and d.stoch:
        rng.choice(d.stoch)[1]['variance'] = gen.variance(rng)
    elif kind == 'second':
        i = rng.randrange(len(d.exprs))
        still = [n for n, x in d.endog if abs(x) < 1e-12] or d.endog_names
        l, r = d.exprs[i]
        d.exprs[i] = [l, gen.add(r, gen.mul(gen.N(round(rng.uniform(.05, .6), 3)), [
            '^', gen.V(rng.choice(still)), gen.N(2.)]))]
    elif kind == 'expr':
        try:
            d = apply_ref(d, gen.edit(rng, d, allow_break=0))
        except (Rejected, IndexError, KeyError):
            pass
    elif kind == 'initial':
        d.endog = [[n, round(x + rng.uniform(-.05, .05), 3)] for n, x in d.endog]
    out = {**item, 's': rng.randrange(10 ** 6), 'base': d.dump(), 'searched': True,
           'name': rng.choice([item['name'], 'm.mod', 'other.txt'])}
    if item['form'] == 'ctor':
        out['defn'] = d.dump()
    out['text'] = sut.mod_text(d, 0)
    steps = [s for s in item['steps'] if s[0] != 'edit']
    for _ in range(rng.randint(1, 3)):
        steps.insert(rng.randint(0, len(steps)), rng.choice([
            ['q', rng.choice(['hess', 'second', 'first', 'cov', 'mean', 'sigma', 'ss']), 1],
            ['sim', 5, 2]]))
    return {**out, 'steps': steps}


def undeclare(rng, t):
    """lose a few names from the declarations"""
    m = [x for x in re.finditer(r'(?m)^(var|varexo|parameters)\b([^;]*);', t)]
    if not m:
        return t
    x = rng.choice(m)
    names = re.findall(r'[A-Za-z_]\w*', x.group(2))
    gone = rng.sample(names, min(len(names), rng.choice([1, 2, 3])))
    left = [n for n in names if n not in gone]
    return t[:x.start()] + (f"{x.group(1)} {', '.join(left)};" if left else '') + t[x.end():]


# several things wrong at once: which is reported must not be up to the process
WRONG = {
    'params': lambda m, d: m.params.update(p_one='u_a * u_b + u_c', p_two='u_d - u_e'),
    'param': lambda m, d: m.params.__setitem__('p_one', 'u_a * u_b + exp(u_c) - u_d'),
    'add_params': lambda m, d: m.add_params(p_one='u_a * u_b', p_two='u_c + u_d'),
    'cycle': lambda m, d: m.params.update(p_a='p_b + 1', p_b='p_c * 2', p_c='p_a - p_d', p_d='1'),
    'del': lambda m, d: m.params.__delitem__(list(m.params)[0]),
    'expr': lambda m, d: (m.add_exprs(f"{d.endog_names[0]} = u_a * u_b + u_c"), m.solve(order=1)),
    'set_expr': lambda m, d: (m.exprs.__setitem__(0, 'u_a = u_b * u_c(+1) + u_d(-1)'), m.ss.values),
    'endog': lambda m, d: (m.add_endog(['n_a', 'n_b', 'n_c']), m.solve(order=1)),
    'stoch': lambda m, d: m.add_stoch(['s_a', 's_b'], shocks={'s_a': {'skew': 1, 'kurt': 2},
                                                             's_c': {'variance': 1}}),
    'exog': lambda m, d: m.impulse_response('u_a'),
    'filter': lambda m, d: m.endog.get_loc(['u_a', 'u_b', 'u_c']),
    'new': lambda m, d: sut.pn().Model(endog=['x', 'y'], stoch=['e'],
                                       params={'a': 'u_a * u_b + u_c', 'b': 'u_d'},
                                       exprs=['x = a * x(-1) + e', 'y = u_e * x + u_f']),
}


def noise(rng, k, texts):
    """work whose answers nobody looks at"""
    item = plan_item(rng.child('noise', k), k, texts)
    item['noise'] = rng.choice(['', 'interrupt', 'memory', 'plot', 'draw', 'warnings', 'numerical'])
    item['at'] = int(10 ** rng.uniform(0, 5))
    return item


def plan(rng, i, tier):
    ex = [t for k, t in sorted(p07.examples().items()) if len(t) < 4000]
    texts = [sut.mod_text(gen.model(rng.child('t', k), max_n=3, order2=False), rng.choice([0, 1]))
             for k in range(2)] + [rng.choice(ex)]
    items = [plan_item(rng.child('i', k), k, texts) for k in range(rng.choice([1, 2, 2, 3]))]
    if items[0]['kind'] == 'model' and rng.random() < .6:
        # one much like another
        kin = relative(rng.child('kin'), items[0], 0)
        for q in [s for s in kin['steps'] if s not in items[0]['steps']]:
            items[0]['steps'].insert(-1, q)
        items = [items[0], kin] + items[1:2]
    # under one name, the same size and time
    width = max([len(x['text'].encode()) for x in items if x['text'] is not None] or [0])
    procs = []
    n = rng.randint(2, 3) if tier == 'quick' else rng.randint(3, 6)
    for p in range(n):
        order = [['item', k] for k in range(len(items))]
        rng.shuffle(order)
        for _ in range(rng.choice([0, 0, 1, 2])):
            order.insert(rng.randint(0, len(order)),
                         ['noise', noise(rng.child('n', p, len(order)), len(order), texts)])
        crash = None
        if rng.random() < .4:
            crash = [rng.randrange(len(order)), int(10 ** rng.uniform(0, 5.3))]
        procs.append({'on': [rng.randrange(len(zygote.SEEDS)) for _ in range(2)], 'order': order,
                      'crash': crash, 'env': environment(rng), 'env2': environment(rng)})
    return {'items': items, 'procs': procs, 'width': width, 'first': environment(rng)}


def environment(rng):
    return {'clock': rng.choice([0, 0, -10 ** 8, 3 * 10 ** 8, 12345]), 'listing': rng.randrange(100),
            'ballast': rng.choice([0, 0, 1000, 20000])}


# -- inside a simulated process ----------------------------------------------------
_ballast = []


def enter(env):
    """what differs between processes"""
    import time
    real, real_ns, shift = time.time, time.time_ns, env['clock']
    time.time = lambda: real() + shift
    time.time_ns = lambda: real_ns() + shift * 10 ** 9
    r = random.Random(env['listing'])
    listdir, scandir = os.listdir, os.scandir

    def shuffled(*a):
        out = listdir(*a)
        r.shuffle(out)
        return out

    class Scan:
        def __init__(self, *a):
            with scandir(*a) as it:
                out = list(it)
            r.shuffle(out)
            self.it = iter(out)

        def __iter__(self): return self.it
        def __next__(self): return next(self.it)
        def __enter__(self): return self
        def __exit__(self, *e): return False
        def close(self): pass
    os.listdir, os.scandir = shuffled, Scan
    for k in range(env['ballast']):
        _ballast.append([k] * (k % 37))
        if k % 3 == 0:
            _ballast[r.randrange(len(_ballast))] = None


class CrashAt(faults.Lines):
    def fire(self, frame):
        zygote.crashed()


def perform(item, env, crash_line=None):
    """an item of work, from a given state of the generators, and what came of it"""
    random.seed(item['s'])
    np.random.seed(item['s'])
    kind = item.get('noise')
    if crash_line:
        with CrashAt(crash_line, deep=False, record=False):
            return do(item, env)
    if kind in ('interrupt', 'memory', 'numerical'):
        exc = {'interrupt': faults.Interrupt, 'memory': faults.NoMemory}.get(kind)
        inj = faults.Lines(item['at'], exc) if exc else faults.Calls(1 + item['at'] % 12)
        try:
            with inj:
                do(item, env)
        except (Exception, KeyboardInterrupt):
            pass
        return 'noise'
    out = do(item, env)
    if kind == 'plot':
        outcome(lambda: p04.read(sut.pn().Model.from_path('simple_linear'),
                                 type('D', (), {'stoch': [0]}), 'plot_irf', 1))
    elif kind == 'draw':
        np.random.normal(size=item['s'] % 50)
    elif kind == 'warnings':
        import warnings
        warnings.resetwarnings()
        warnings.simplefilter('ignore')
    return out if kind is None else 'noise'


def do(item, env):
    root = env['root']
    if item['kind'] == 'example':
        p = item['name']
        arg = pathlib.Path(p) if item['form'] == 'Path' else p
    elif item['form'] not in ('text', 'ctor'):
        p = os.path.join(root, item['name'])
        data = item['text'].encode('utf-8', 'surrogatepass')
        data += b'\n' * (env['width'] - len(data))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        os.utime(p, (1.6e9, 1.6e9))
        arg = p if item['form'] in ('abs', 'Path') else os.path.relpath(p)
        if item['form'] in ('Path', 'relPath'):
            arg = pathlib.Path(arg)
    if item['form'] == 'ctor':
        ok, m = outcome(lambda: construct(Defn.load(item['defn']), 'ctor'))
    elif item['form'] == 'text':
        from pynare.parsing import read_model
        ok, m = outcome(lambda: sut.pn().Model.from_outline(
            read_model(item['text'], 'dynare'), 'dynare', 'm'))
    else:
        ok, m = outcome(lambda: sut.pn().Model.from_path(arg))
    res = [['load', encode(ok, None if ok else m, env)]]
    if not ok:
        return res
    d = shape_of(m)
    for st in item['steps']:
        ok, v = outcome(lambda: step(m, d, st))
        res.append([st[0] + (' ' + str(st[1]) if st[0] in ('q', 'read', 'bad', 'wrong') else ''),
                    encode(ok, v, env)])
        if st[0] in ('edit', 'wrong'):
            d = shape_of(m)
    return res


def shape_of(m):
    """enough of a definition for requests to be made of any model"""
    d = Defn(endog=[[str(x), 0.] for x in m.endog.names], stoch=[[str(x), {}] for x in m.stoch.names])
    n = d.endog_names[0] if d.endog else 'x'
    d.exprs = [[['v', n, 0], ['*', ['n', .5], ['v', n, -1]]]]
    return d


def step(m, d, st):
    k = st[0]
    if k == 'q':
        arg = gen.query(Rng('arg', st[2]), d, [st[1]])['arg']
        return sut.QUERIES[st[1]](m, arg)
    if k == 'sim':
        sim = m.simulate(periods=st[1], order=st[2])
        return [np.array(sim.paths), np.array(sim.shocks)]
    if k == 'read':
        return p04.read(m, d, st[1], st[2])
    if k == 'solve':
        m.solve(order=st[1])
        return m.solution_order
    if k == 'bad':
        return p04.bad_request(m, d, st[1])
    if k == 'wrong':
        return WRONG[st[1]](m, d) and None
    if k == 'irf':
        return m.impulse_response(periods=st[1]).impulse
    if k == 'edit':
        gen.apply_real(m, st[1])
        return None
    return [sut.describe(m), [str(e) for e in m.exprs.exprs], list(m.params), repr(m),
            [float(v) for v in m.params.values()], str(m.params) if len(m.params) else '',
            m.name, list(m.model_scope)]


def encode(ok, v, env):
    if not ok:
        return ['!', type(v).__name__, plain(str(v), env)]
    return enc(v, env, 0)


def enc(v, env, depth):
    if v is None or isinstance(v, (bool, int)):
        return v
    if isinstance(v, (float, np.floating)):
        return ['#f', repr(float(v))]
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, str):
        return ['#s', plain(str(v), env)]
    if isinstance(v, np.ndarray):
        if v.dtype.kind in 'fiub':
            return ['#a', list(v.shape), [repr(float(x)) for x in v.ravel()]]
        return ['o', [enc(x, env, depth + 1) for x in v.ravel().tolist()]]
    if depth < 4 and isinstance(v, dict):
        return ['d', [[str(k), enc(x, env, depth + 1)] for k, x in v.items()]]
    if depth < 4 and isinstance(v, (list, tuple)):
        return ['l', [enc(x, env, depth + 1) for x in v]]
    return ['t', type(v).__name__]


def plain(s, env):
    """text, without where the files happen to be"""
    for p in (env['root'], os.path.relpath(env['root']), os.getcwd()):
        s = s.replace(p, '<dir>')
    return re.sub(r'0x[0-9a-f]{6,}', '0x', s)


# -- comparing ---------------------------------------------------------------------
NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|\.\d+|nan|inf)', re.I)


def differ(a, b, tol, where=''):
    """'' or the first difference between two encoded answers"""
    if isinstance(a, list) and isinstance(b, list) and a and b and a[0] == b[0] and \
            a[0] in ('#f', '#a', '#s'):
        if a[0] == '#f':
            return '' if near(a[1], b[1], tol) else f"{where}{a[1]} / {b[1]}"
        if a[0] == '#a':
            if a[1] != b[1]:
                return f"{where}shapes {a[1]} / {b[1]}"
            scale = max([abs(float(x)) for x in a[2] if x not in ('nan', 'inf', '-inf')] or [0])
            for k, (x, y) in enumerate(zip(a[2], b[2])):
                if not near(x, y, tol, scale):
                    return f"{where}element {k}: {x} / {y}"
            return ''
        return texts_differ(a[1], b[1], where)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{where}{len(a)} / {len(b)} entries: {str(a)[:80]} / {str(b)[:80]}"
        for x, y in zip(a, b):
            r = differ(x, y, tol, where)
            if r:
                return r
        return ''
    return '' if a == b else f"{where}{str(a)[:100]} / {str(b)[:100]}"


def near(x, y, tol, scale=0.):
    if x == y:
        return True
    x, y = float(x), float(y)
    if not (np.isfinite(x) and np.isfinite(y)):
        return str(x) == str(y)
    return abs(x - y) <= tol * (1 + max(abs(x), abs(y), scale))


def texts_differ(a, b, where):
    if a == b:
        return ''
    # printed numbers may be rounded the other way
    x, y = NUM.split(a), NUM.split(b)
    if ''.join(''.join(x).split()) != ''.join(''.join(y).split()):
        k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        return f"{where}text {a[max(0, k - 20):k + 40]!r} / {b[max(0, k - 20):k + 40]!r}"
    for p, q in zip(NUM.findall(a), NUM.findall(b)):
        if p != q and not near(p, q, 2e-2):
            return f"{where}printed {p} / {q}"
    return ''


# -- a run --------------------------------------------------------------------------
def describe(p, env, k):
    return (f"hash seed {zygote.SEEDS[k]}, after "
            f"{[o[0] if o[0] == 'noise' else 'item %d' % o[1] for o in p]}")


def run(scn, ctx):
    root = os.path.realpath(tempfile.mkdtemp(prefix='w', dir=os.environ.get('DST_SCRATCH') or None))
    try:
        items = scn['items']
        common = {'root': root, 'width': scn['width']}
        alone = {}
        for k, item in enumerate(items):
            got, _ = zygote.run(0, MODULE, [(0, item)], {**common, **scn['first']})
            alone[k] = got[0]
            ctx.time += 1
            ctx.log('alone', k, item['kind'])
        for p in scn['procs']:
            history(scn, ctx, p, items, alone, common)
    except zygote.Hung as e:
        raise Violation(f"a process did not finish its work: {e}", 'hung')
    finally:
        shutil.rmtree(root, ignore_errors=True)


def history(scn, ctx, p, items, alone, common):
    work = [(n, items[o[1]] if o[0] == 'item' else o[1]) for n, o in enumerate(p['order'])]
    k, env, first = p['on'][0], p['env'], True
    crash = p['crash']
    if crash and crash[0] >= len(work):
        crash = None
    for n, o in enumerate(p['order']):
        if o[0] == 'noise':
            ctx.fault('unrelated work: ' + (o[1].get('noise') or 'completed'))
    before = []
    while work:
        got, end = zygote.run(k, MODULE, work, {**common, **env}, crash)
        ctx.time += len(got)
        for n in sorted(got):
            o = p['order'][n]
            if o[0] == 'item':
                x = items[o[1]]
                tol = 1e-7 if x.get('searched') or x['kind'] != 'model' else 1e-9
                compare(ctx, x, alone[o[1]], got[n], tol,
                        f"item {o[1]} ({x['kind']}, {x['form']}) in a process with "
                        f"{describe(p['order'][:n], env, k)}"
                        f"{' resumed after a crash' if not first else ''}: ")
                ctx.state(zygote.SEEDS[k], tuple(sorted({q[0] for q in p['order'][:n]})),
                          x['kind'], not first, tuple(sorted({s[0] for s in x['steps']})))
        left = [w for w in work if w[0] not in got]
        if end:
            break
        if crash is None:
            n = left[0][0] if left else len(p['order'])
            raise Violation(f"the process ended by itself at item {n} of its work", 'died')
        ctx.fault('crash and restart')
        first, crash, k, env, work = False, None, p['on'][1], p['env2'], left
        before.append(len(left))
    ctx.log('history', len(p['order']), before)


def compare(ctx, item, want, got, tol, where):
    ctx.judged()
    if len(want) != len(got):
        raise Violation(f"{where}it was "
                        f"{'loaded' if len(got) > 1 else got[0][1]}; alone in a process it was "
                        f"{'loaded' if len(want) > 1 else want[0][1]}", 'load')
    for (name, w), (_, g) in zip(want, got):
        ctx.judged()
        r = differ(w, g, tol)
        if r:
            raise Violation(f"{where}{name} differs from the same work alone in a process: "
                            f"(alone / here) {r}", 'differs')


def shrink(scn):
    yield from shrink_list(scn, 'procs', 1)
    for k, p in enumerate(scn['procs']):
        for small in shrink_list(p, 'order', 1):
            c = {**scn, 'procs': list(scn['procs'])}
            c['procs'][k] = {**small, 'crash': None}
            yield c
        if p['crash']:
            yield {**scn, 'procs': [{**q, 'crash': None} if q is p else q for q in scn['procs']]}
        for e in ('env', 'env2'):
            calm = {'clock': 0, 'listing': 0, 'ballast': 0}
            if p[e] != calm:
                yield {**scn, 'procs': [{**q, e: calm} if q is p else q for q in scn['procs']]}
    for k, x in enumerate(scn['items']):
        for small in shrink_list(x, 'steps'):
            c = {**scn, 'items': list(scn['items'])}
            c['items'][k] = small
            yield c
