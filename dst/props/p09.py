"""P09: a simulation can be stopped and resumed at any period without a trace"""
import os
import tempfile

import numpy as np

from .. import faults, gen, ref, sut
from ..gen import Rejected, apply_ref
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import Oracle, Subject, construct, outcome, shrink_list
from . import p04

LEVEL = 'exploration'
COUNTS = {'quick': 1800, 'thorough': 14000}
LIMIT = 90.
TIME_UNIT = 'simulated periods'
STATE_MEASURE = ('quadruples (operation, order in force, model resumed on, relation to the path '
                 'resumed)')
RULE = ('One run is a seeded history of simulations (seeded standardised or generated shocks, '
        'initial values, orders, input containers), stops at seeded periods with only the '
        'stored values surviving (in memory, in a file, as text), resumptions on the same '
        'model, a copy or one built afresh, chains of one-period runs, longer and shorter '
        'reruns, impulse responses of every shock, with edits, solves, queries, rejected and '
        'interrupted simulations in between. Every path is compared with the reference '
        'decision rule applied period by period, and with the path it continues or repeats. '
        'Non-trivial: a path or a resumption was judged.')
REAL = ['all of pynare, numpy, scipy, autograd']
STUB = ['the crash: what a stopped simulation leaves is its stored values only']
ASSUMPTIONS = ['paths that leave the range of a million are not compared',
               'tolerance 1e-6 against the reference, 1e-8 between runs of the same model']

HOW = ['array', 'array', 'fortran', 'strided', 'vector', 'readonly']


def plan(rng, i, tier):
    models = [gen.model(rng.child('m', k), tiny=rng.random() < .2, max_n=5)
              for k in range(rng.choice([1, 1, 2]))]
    now = list(models)
    n = rng.randint(8, 14) if tier == 'quick' else rng.randint(12, 30)
    ops = []
    while len(ops) < n:
        k = rng.randrange(len(now))
        d = now[k]
        u = rng.random()
        if u < .30 or not ops:
            op = {'op': 'run', 'T': rng.choice([1, 2, 3, 5, 8, 13, rng.choice([21, 60, 205])]), 's': rng.randrange(10 ** 6),
                  'order': rng.choice([0, 0, 1, 2, 2]), 'init': rng.random() < .5,
                  'how': rng.choice(HOW), 'drawn': rng.random() < .25,
                  'size': rng.choice([.1, .5, .5, 2.])}
        elif u < .50:
            op = {'op': 'resume', 'which': rng.randrange(1000), 'at': round(rng.random(), 6),
                  'on': rng.choice(['same', 'same', 'copy', 'ctor', 'text', 'file']),
                  'kept': rng.choice(['memory', 'npy', 'text']), 'how': rng.choice(HOW)}
        elif u < .56:
            op = {'op': 'chain', 'which': rng.randrange(1000), 'step': rng.choice([1, 1, 2, 3])}
        elif u < .62:
            op = {'op': 'longer', 'which': rng.randrange(1000), 'extra': rng.randint(1, 6),
                  's': rng.randrange(10 ** 6)}
        elif u < .70:
            op = {'op': 'irf', 'shock': rng.randrange(5), 'T': rng.choice([1, 2, 4, 9, rng.choice([21, 40, 205])]),
                  'size': rng.choice([1, 1., -.5, 2.5, 0]), 'default': rng.random() < .3}
        elif u < .78:
            op = {'op': 'strike', 'kind': rng.choice(faults.FAULTS), 'at': round(rng.random(), 6),
                  'when': round(rng.random(), 6), 'T': rng.choice([2, 6]),
                  's': rng.randrange(10 ** 6), 'order': rng.choice([0, 0, 1, 2])}
        elif u < .82:
            op = {'op': 'rejected', 'what': rng.choice(['wide', 'init', 'order', 'text', 'negative',
                                                        'empty'])}
        elif u < .87:
            op = {'op': 'read', 'what': rng.choice(p04.READS), 's': rng.randrange(10 ** 6)}
        elif u < .91:
            op = {'op': 'solve', 'order': rng.choice([1, 2])}
        else:
            op = gen.edit(rng, d, allow_break=.12)
            try:
                now[k] = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                pass
        op['k'] = k
        ops.append(op)
    return {'models': [m.dump() for m in models], 'seed': rng.randrange(2 ** 31), 'ops': ops}


# ---------------------------------------------------------------------------------
class Past:
    """a path that was simulated, by whom, and what it was given"""
    __slots__ = ('k', 'defn', 'order', 'Z', 'init', 'paths', 'obj', 'copyof')


def contain(a, how):
    """the same numbers in another container"""
    a = np.array(a)
    if a.dtype.kind != "i":
        a = a.astype(float)
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        big = np.full(tuple(2 * n for n in a.shape), np.nan)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'vector' and a.ndim == 2 and a.shape[1] == 1 and a.shape[0] > 1:
        return a[:, 0].copy()
    if how == 'readonly':
        a.setflags(write=False)
    return a


def survive(values, kept):
    """what is left of stored values after a crash"""
    if kept == 'npy':
        with tempfile.NamedTemporaryFile(dir=os.environ.get('DST_SCRATCH') or None) as f:
            np.save(f, values)
            f.flush()
            f.seek(0)
            return np.load(f)
    if kept == 'text':
        return np.array([float(repr(float(x))) for x in values])
    return np.array(values)


def sizeable(a):
    return np.isfinite(a).all() and np.abs(a).max(initial=0) < 1e6


class Run:
    def __init__(self, scn, ctx):
        self.ctx, self.oracle = ctx, Oracle(ctx)
        self.subjects = [Subject(ctx, self.oracle, Defn.load(d), label=f"model {k}")
                         for k, d in enumerate(scn['models'])]
        self.past = []
        np.random.seed(scn['seed'])

    def usable(self, s):
        return self.oracle.view(s.defn).kind == 'unique'

    def remember(self, k, s, Z, init, paths, obj):
        p = Past()
        p.k, p.defn, p.order, p.Z, p.init = k, s.defn, s.in_force, Z, init
        p.paths, p.obj, p.copyof = np.array(paths), obj, np.array(paths)
        self.past.append(p)
        return p

    def pick(self, which):
        """a past path whose model still has the definition and order it had"""
        good = [p for p in self.past if self.subjects[p.k].defn.key() == p.defn.key() and
                self.subjects[p.k].in_force == p.order and sizeable(p.paths)]
        return good[which % len(good)] if good else None

    def judge(self, where, s, paths, Z, init, shocks=None):
        v = self.oracle.view(s.defn)
        innovs = np.asarray(Z) @ sut.chol_upper(v.solved.Sigma)
        want = v.solved.path(s.in_force, innovs, init)
        self.ctx.judged()
        self.ctx.time += len(want)
        if np.shape(paths) != want.shape:
            raise Violation(f"{where}a path of shape {np.shape(paths)} instead of {want.shape}",
                            'path')
        if not sizeable(want):
            return want
        if not sut.close(paths[0], want[0], 1e-10):
            raise Violation(f"{where}the path starts at {sut.brief(paths[0])}, not at "
                            f"{sut.brief(want[0])}", 'start')
        for t in range(1, len(want)):
            if not sut.close(paths[t], want[t], 1e-6):
                raise Violation(f"{where}period {t} is {sut.brief(paths[t])}; the order-"
                                f"{s.in_force} decision rule gives {sut.brief(want[t])}", 'path')
        if shocks is not None and not sut.close(shocks, innovs, 1e-9):
            raise Violation(f"{where}innovations {sut.brief(shocks)} instead of "
                            f"{sut.brief(innovs)}", 'innovations')
        return want


def seeded_shocks(s, T, nu, size):
    g = Rng('z', s)
    return np.array([[round(g.gauss(0, size), 4) for _ in range(nu)] for _ in range(T)]
                    ).reshape(T, nu)


def run(scn, ctx):
    R = Run(scn, ctx)
    for n, op in enumerate(scn['ops']):
        s = R.subjects[op['k']]
        name = op['op']
        where = f"operation {n} ({name}) on {s.label}: "
        ctx.log(n, name)
        if name in HANDLERS:
            ctx.op(name)
            HANDLERS[name](R, s, op, where)
        else:
            s.edit(op)
    # what was returned stays what it was
    for p in R.past:
        if not np.array_equal(np.array(p.obj.paths), p.copyof, equal_nan=True):
            raise Violation("a path that was returned has changed since", 'changed')


def simulate(m, Z, init, order, how, T=None):
    """returns the simulation; the caller's arrays must be as they were"""
    z = contain(Z, how)
    kw = {}
    if init is not None:
        kw['init'] = contain(init, how if how != 'vector' else 'array')
    if order:
        kw['order'] = order
    zc, ic = np.array(z, dtype=float), np.array(kw.get('init', 0.), dtype=float)
    sim = m.simulate(shocks=z, periods=T or 3, **kw)
    if not np.array_equal(np.array(z, dtype=float), zc) or \
            not np.array_equal(np.array(kw.get('init', 0.), dtype=float), ic):
        raise Violation("the simulation changed the arrays it was given", 'inputs')
    return sim


def do_run(R, s, op, where):
    nu = len(s.defn.stoch)
    if not R.usable(s):
        ok, got = outcome(lambda: s.m.simulate(periods=2))
        return
    v = R.oracle.view(s.defn)
    init = None
    if op['init']:
        g = Rng('init', op['s'])
        init = v.ss + np.array([round(g.uniform(-.15, .15), 4) for _ in s.defn.endog])
        form = g.random()
        if form < .08:
            init = np.zeros(len(init))
        elif form < .16:
            init = np.round(init).astype(int)
        elif form < .20:
            init = np.zeros(len(init), dtype=int)
        elif form < .28:
            init = np.where([g.random() < .5 for _ in init], v.ss, init)
    T = op['T']
    if op['drawn']:
        keep = np.random.get_state()
        Z = np.random.normal(size=(T, nu))
        np.random.set_state(keep)
        kw = {k: x for k, x in (('init', init), ('order', op['order'] or None)) if x is not None}
        ok, sim = outcome(lambda: s.m.simulate(periods=T, **kw))
    else:
        Z = seeded_shocks(op['s'], T, nu, op['size'])
        if op['s'] % 12 == 0:
            Z = np.round(Z).astype(int)
        how = 'array' if op['how'] == 'vector' and T == 1 else op['how']
        ok, sim = outcome(lambda: simulate(s.m, Z, init, op['order'], how, T=(T % 4) + 1))
    if not ok:
        raise Violation(f"{where}raised {type(sim).__name__}: {str(sim)[:160]}", 'raised')
    if op['order']:
        s.order = op['order']
    paths = np.array(sim.paths)
    R.judge(where, s, paths, Z, init, np.array(sim.shocks))
    R.remember(op['k'], s, Z, init, paths, sim)
    R.ctx.state('run', s.in_force, op['how'], op['init'], op['drawn'])
    R.ctx.log(paths)


def on_model(R, p, on):
    if on == 'same':
        return R.subjects[p.k].m
    m = R.subjects[p.k].m.copy() if on == 'copy' else construct(p.defn, on)
    m.solve(order=p.order)
    return m


def resume(R, s, op, where):
    p = R.pick(op['which'])
    if p is None or len(p.paths) < 2:
        return
    T = len(p.paths)
    at = min(int(op['at'] * T), T - 1)
    m = on_model(R, p, op['on'])
    init = survive(p.paths[at], op['kept'])
    Z = p.Z[at:]
    how = 'array' if op['how'] == 'vector' and len(Z) == 1 else op['how']
    R.ctx.fault(f"stopped and resumed ({op['kept']})")
    ok, sim = outcome(lambda: simulate(m, Z, init, 0, how))
    if not ok:
        raise Violation(f"{where}resuming at period {at} of {T} raised {type(sim).__name__}: "
                        f"{str(sim)[:160]}", 'raised')
    R.ctx.judged()
    R.ctx.time += len(Z)
    R.ctx.state('resume', p.order, op['on'], at == 0, at == T - 1)
    tol = 1e-8 if op['on'] in ('same', 'copy') else 1e-6
    if not sut.close(sim.paths, p.paths[at:], tol):
        raise Violation(f"{where}an order-{p.order} path of {T} periods resumed at period {at} on "
                        f"the {op['on']} model is {sut.brief(sim.paths)}; uninterrupted it is "
                        f"{sut.brief(p.paths[at:])}", 'resume')


def chain(R, s, op, where):
    """stop and resume over and over"""
    p = R.pick(op['which'])
    if p is None or len(p.paths) < 2:
        return
    m = R.subjects[p.k].m
    got, y, t = [p.paths[0]], p.paths[0], 0
    T = len(p.paths)
    while t < T - 1:
        Z = p.Z[t:t + op['step'] + 1]
        part = m.simulate(shocks=Z, init=y).paths
        got.extend(part[1:])
        y = np.array(part[-1])
        t += len(Z) - 1
        R.ctx.fault('stopped and resumed (memory)')
    R.ctx.judged()
    R.ctx.time += T
    R.ctx.state('chain', p.order, op['step'])
    if not sut.close(np.array(got), p.paths, 1e-8):
        raise Violation(f"{where}a path made in steps of {op['step']} is {sut.brief(got)}; at once "
                        f"it is {sut.brief(p.paths)}", 'resume')


def longer(R, s, op, where):
    p = R.pick(op['which'])
    if p is None:
        return
    t = R.subjects[p.k]
    T, nu = p.Z.shape
    # the last innovation only matters to the period after
    Z = np.vstack((p.Z, seeded_shocks(op['s'], op['extra'], nu, .5)))
    last = p.Z.copy()
    last[-1] += 1
    kw = {} if p.init is None else {'init': p.init}
    long_ = np.array(t.m.simulate(shocks=Z, **kw).paths)
    R.judge(where, t, long_, Z, p.init)
    R.ctx.state('longer', p.order)
    if not sut.close(long_[:T], p.paths, 1e-9):
        raise Violation(f"{where}the first {T} of {len(Z)} periods are {sut.brief(long_[:T])}; a "
                        f"run of {T} is {sut.brief(p.paths)}", 'longer')
    same = np.array(t.m.simulate(shocks=last, **kw).paths)
    if not sut.close(same, p.paths, 1e-9):
        raise Violation(f"{where}the innovation after the last period changes the path", 'longer')
    R.ctx.judged(2)


def irf(R, s, op, where):
    if not R.usable(s):
        return
    nu = len(s.defn.stoch)
    k = 0 if op['default'] else op['shock'] % nu
    name = s.defn.stoch_names[k]
    kw = {} if op['default'] else {'exog': name}
    ok, r = outcome(lambda: s.m.impulse_response(periods=op['T'], size=op['size'], **kw))
    if not ok:
        raise Violation(f"{where}raised {type(r).__name__}: {str(r)[:160]}", 'raised')
    Z = np.zeros((op['T'], nu))
    Z[0, k] = op['size']
    v = R.oracle.view(s.defn)
    got = np.array(r.impulse)
    R.judge(where, s, got + v.ss, Z, None)
    sim = s.m.simulate(shocks=Z)
    if not sut.close(got, np.array(sim.paths) - v.ss, 1e-7):
        raise Violation(f"{where}the response to {name} is {sut.brief(got)}; the path after that "
                        f"shock less the steady state is {sut.brief(sim.paths - v.ss)}", 'irf')
    if r.periods != op['T'] or np.shape(got) != (op['T'], len(s.defn.endog)):
        raise Violation(f"{where}a response of {np.shape(got)} to {op['T']} periods", 'irf')
    R.ctx.state('irf', s.in_force, k, op['size'])
    R.ctx.log(got)


def strike(R, s, op, where):
    if not R.usable(s):
        return
    nu = len(s.defn.stoch)
    Z = seeded_shocks(op['s'], op['T'], nu, .5)
    f = lambda m: m.simulate(shocks=Z, order=op['order'])
    twin = sut.build(s.defn)
    twin.solve(order=s.in_force)
    _, _, cnt = faults.attempt(op['kind'], None, f, twin)
    if not cnt.count:
        return
    at = faults.moment(cnt, op['when'] < .5, op['at'], op['when'])
    ok, got, inj = faults.attempt(op['kind'], at, f, s.m)
    if inj.where is not None:
        R.ctx.fault(op['kind'] + ' during a simulation')
    if ok:
        if op['order']:
            s.order = op['order']
    else:
        # which order is in force when it was stopped is P02's and P04's business
        s.order = s.m.solution_order
    kw = {'order': op['order']} if op['order'] else {}
    ok, again = outcome(lambda: s.m.simulate(shocks=Z, **kw))
    if not ok:
        raise Violation(f"{where}repeated after {op['kind']} at {inj.where} it raised "
                        f"{type(again).__name__}: {str(again)[:160]}", 'raised')
    if op['order']:
        s.order = op['order']
    R.judge(f"{where}repeated after {op['kind']} at {inj.where}: ", s, np.array(again.paths), Z,
            None)
    R.remember(op['k'], s, Z, None, again.paths, again)
    R.ctx.log(op['kind'], inj.where)


def rejected(R, s, op, where):
    n, nu = len(s.defn.endog), len(s.defn.stoch)
    w = op['what']
    f = {'wide': lambda: s.m.simulate(shocks=np.zeros((3, nu + 1))),
         'init': lambda: s.m.simulate(shocks=np.zeros((3, nu)), init=np.zeros(n + 2)),
         'order': lambda: s.m.simulate(order=9),
         'text': lambda: s.m.simulate(shocks='none'),
         'negative': lambda: s.m.simulate(periods=-1),
         'empty': lambda: s.m.simulate(periods=0)}[w]
    ok, got = outcome(f)
    R.ctx.fault('rejected simulation')
    if ok and w in ('wide', 'order', 'text') and R.usable(s):
        raise Violation(f"{where}{w} was accepted", 'accepted')


def read(R, s, op, where):
    if s.defn.exprs and s.defn.endog and s.defn.stoch:
        outcome(lambda: p04.read(s.m, s.defn, op['what'], op['s']))


def solve(R, s, op, where):
    s.solve(op['order'])


HANDLERS = {'run': do_run, 'resume': resume, 'chain': chain, 'longer': longer, 'irf': irf,
            'strike': strike, 'rejected': rejected, 'read': read, 'solve': solve}


def shrink(scn):
    yield from shrink_list(scn, 'ops', 1)
    for i, op in enumerate(scn['ops']):
        for k, small in (('T', 2), ('how', 'array'), ('kept', 'memory'), ('on', 'same'),
                         ('init', False), ('drawn', False)):
            if op.get(k) not in (None, small) and (k != 'T' or op[k] > 2):
                c = {**scn, 'ops': list(scn['ops'])}
                c['ops'][i] = {**op, k: small}
                yield c
