"""P05: threads working on separate models do not influence each other"""
import os
import pickle
import re
import sys
import warnings

import numpy as np

from .. import faults, gen, ref, simthreads, sut
from ..gen import Rejected, apply_real, apply_ref
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import outcome, shrink_list

LEVEL = 'exploration'
COUNTS = {'quick': 480, 'thorough': 4500}
LIMIT = 150.
TIME_UNIT = 'interpreter lines executed by simulated threads'
STATE_MEASURE = 'source lines at which control passed from one thread to another'
RULE = ('One run gives two to four real threads a program each (loading good and damaged text, '
        'building, editing, solving at either order, occasionally-binding solves, moments, '
        'simulations with given shocks, copies), lets a seeded scheduler decide at every '
        'executed line of pynare, autograd and scipy which thread goes on (random, '
        'site-triggered and priority-change policies), and may stall a thread until the others '
        'have finished or end it at a line. Every surviving thread must have obtained what its '
        'program gives in a process of its own; locks must not be left held; process-wide '
        'settings must be as before. Non-trivial: control changed hands inside an operation.')
REAL = ['all of pynare, autograd, numpy, scipy; the threads are operating-system threads']
STUB = ['which thread runs: a baton passed by the simulator; threading.Lock and RLock are '
        'simulated so that waiting is a scheduling decision and deadlock is seen']
ASSUMPTIONS = ['threads change hands between source lines (finer interleavings inside one line '
               'or inside compiled code are not explored)',
               'a thread does not die on the line of a `with` statement']

QUERIES = ['ss', 'jac', 'hess', 'sigma', 'eigen', 'first', 'cov', 'var', 'corr', 'autocov', 'vd', 'vdsel',
           'mean', 'steady', 'dyn', 'solution', 'irf', 'sim', 'summary', 'kalman']


def program(rng, tier):
    """a thread's program and nothing it shares with others"""
    profile = rng.choice(['parse', 'derive', 'mixed', 'mixed'])
    d = gen.model(rng.child('m'), max_n=3, tiny=rng.random() < .3)
    steps = []
    u = rng.random()
    steps.append({'do': 'load' if u < .55 else 'build', 'model': d.dump()})
    n = rng.randint(1, 4) if tier == 'quick' else rng.randint(2, 7)
    if profile == 'parse':
        # loads, most of them of damaged text
        text = sut.mod_text(d, rng.choice([0, 1]))
        return [{'do': 'bad', 'text': damaged(rng, text)} if rng.random() < .8 else
                {'do': 'bad', 'text': text} for _ in range(n + 2)]
    if profile == 'derive':
        for k in range(n):
            if rng.random() < .4:
                op = gen.param_edit(rng, d)
                try:
                    d = apply_ref(d, op)
                except (Rejected, IndexError, KeyError):
                    pass
                steps.append({'do': 'edit', 'op': op})
            steps.append({'do': 'q', 'q': rng.choice(['hess', 'hess', 'jac', 'ss']), 's': k})
        return steps
    for _ in range(n):
        u = rng.random()
        if u < .14:
            text = damaged(rng, sut.mod_text(d))
            steps.append({'do': 'bad', 'text': text})
        elif u < .2:
            steps.append({'do': 'badexpr', 'text': rng.choice(
                ['c = * 2', 'c = (1 + 2', 'c = 1 2', 'c = exp 3', '= 4', 'c(+1 = 3', 'c = log(']),
                'at': rng.randrange(3)})
        elif u < .34:
            steps.append({'do': 'solve', 'order': rng.choice([1, 1, 2])})
        elif u < .40:
            steps.append({'do': 'copy'})
        elif u < .46:
            steps.append({'do': 'occbin'})
        elif u < .62:
            op = gen.edit(rng, d, allow_break=.15)
            try:
                d = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                pass
            steps.append({'do': 'edit', 'op': op})
        else:
            steps.append({'do': 'q', 'q': rng.choice(QUERIES), 's': rng.randrange(10 ** 6)})
    return steps


def damaged(rng, text):
    k = rng.randrange(len(text))
    u = rng.random()
    if u < .3:
        return text[:k]
    if u < .6:
        # something is missing before, or out of place at, a keyword or the end of a statement
        spots = [m.start() for m in re.finditer(
            r';|\bmodel\b|\bend\b|\binitval\b|\bshocks\b|\bvar\b|\bcorr\b|=', text)]
        k = rng.choice(spots)
        return text[:k] + rng.choice(['', ' end ', ' var ', ' model ', ' initval ', ' shocks ',
                                      ' parameters ', ') ']) + text[k + rng.choice([0, 1]):]
    if u < .8:
        return text[:k] + rng.choice(';=()+*/^,@$') + text[k + 1:]
    return text[:k] + text[k + rng.randint(1, 5):]


def plan(rng, i, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    progs = [program(rng.child('t', k), tier) for k in range(n)]
    if rng.random() < .25:
        # the same work in all
        progs = [progs[0]] * n
    u = rng.random()
    if u < .35:
        policy = {'kind': 'random', 'p': rng.choice([.3, .05, .01, .002])}
    elif u < .75:
        policy = {'kind': 'sites', 'one_in': rng.choice([3, 10, 30, 100])}
    else:
        policy = {'kind': 'pct', 'changes': [round(rng.random(), 6) for _ in
                                             range(rng.choice([1, 2, 3, 8, 20]))]}
    faults_ = []
    for k in range(n):
        u = rng.random()
        if u < .15:
            faults_.append([k, 'kill', round(rng.random(), 6), round(rng.random(), 6)])
        elif u < .27:
            faults_.append([k, 'stall', round(rng.random(), 6), round(rng.random(), 6)])
    return {'programs': progs, 'policy': policy, 'faults': faults_,
            'deep': rng.random() < .7, 'seed': rng.randrange(1 << 30)}


def work(steps, out):
    """run a program; `out` collects one record per step"""
    m = None
    d = None
    for st in steps:
        do = st['do']
        if do in ('load', 'build'):
            d = Defn.load(st['model'])
            if do == 'load':
                from pynare.parsing import read_model
                ok, m_ = outcome(lambda: sut.pn().Model.from_outline(
                    read_model(sut.mod_text(d), 'dynare'), 'dynare', 'm'))
            else:
                ok, m_ = outcome(sut.build, d)
            m = m_ if ok else m
            out.append(rec(ok, sut.describe(m) if ok else m_))
        elif do == 'bad':
            from pynare.parsing import read_model
            ok, got = outcome(lambda: sut.describe(sut.pn().Model.from_outline(
                read_model(st['text'], 'dynare'), 'dynare', 'm')))
            out.append(rec(ok, got))
        elif m is None:
            continue
        elif do == 'badexpr':
            ok, got = outcome(m.add_exprs, st['text'])
            out.append(rec(ok, got))
        elif do == 'solve':
            ok, got = outcome(lambda: m.solve(order=st['order']))
            out.append(rec(ok, m.solution_order if ok else got))
            if ok:
                out.append(rec(*outcome(sut.q_solution, m, None)))
        elif do == 'copy':
            ok, c = outcome(m.copy)
            out.append(rec(ok, sut.describe(c) if ok else c))
            m = c if ok else m
        elif do == 'occbin':
            v = d.endog_names[0]
            l, r = d.exprs[0]
            ok, got = outcome(lambda: m.copy().solve(
                constraint=[f"{v} < -0.05", f"{v} > -0.05"],
                exprs={0: ref.expr_text([l, gen.add(r, gen.N(.01))])},
                shocks=[-.5, .1], periods=8))
            out.append(rec(ok, got.paths if ok else got))
        elif do == 'edit':
            ok, got = outcome(apply_real, m, st['op'])
            if ok:
                try:
                    d = apply_ref(d, st['op'])
                except (Rejected, IndexError, KeyError):
                    pass
            out.append(rec(ok, got))
        elif do == 'q':
            arg = gen.query(Rng('arg', st['s']), d, [st['q']])['arg']
            out.append(rec(*outcome(sut.QUERIES[st['q']], m, arg)))
    return out


def rec(ok, v):
    if not ok:
        return ('raised', type(v).__name__, re.sub(r'0x[0-9a-f]+', '0x', str(v)))
    return ('ok', v)


def alone(steps, deep):
    """what a program gives in a process of its own, and how many lines it executes"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            inj = faults.Lines(None, deep=deep)
            out = []
            with inj:
                work(steps, out)
            keys = sorted(inj.seen)
            data = pickle.dumps((out, inj.count, [inj.seen[k] for k in keys]))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def differ(a, b):
    """'' or how two records differ"""
    if a[0] != b[0]:
        return f"{short(a)} instead of {short(b)}"
    if a[0] == 'raised':
        return '' if a == b else f"{short(a)} instead of {short(b)}"
    return '' if like(a[1], b[1]) else f"{short(a)} instead of {short(b)}"


def short(r):
    return f"{r[1]}: {r[2][:120]}" if r[0] == 'raised' else sut.brief_any(r[1])[:120]


def like(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return list(x) == list(y) and all(like(x[k], y[k]) for k in y)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(map(like, x, y))
    if np.iscomplexobj(x) or np.iscomplexobj(y):
        return np.iscomplexobj(x) and np.iscomplexobj(y) and like(x.real, y.real) and \
            like(x.imag, y.imag)
    if isinstance(x, (np.ndarray, float)) or isinstance(y, (np.ndarray, float)):
        try:
            return sut.close(x, y, 1e-9)
        except (TypeError, ValueError):
            return False
    return type(x) is type(y) and x == y if not isinstance(x, (int, str, type(None))) else x == y


def settings():
    st = np.random.get_state()
    return {'warning filters': [str(f) for f in warnings.filters],
            'the warning hook': warnings.showwarning.__name__,
            'floating-point error handling': dict(np.geterr()),
            'the random state': (st[1].tobytes(), st[2]),
            'print options': str(np.get_printoptions()),
            'the recursion limit': sys.getrecursionlimit(),
            'the working directory': os.getcwd(),
            'the environment': dict(os.environ)}


def run(scn, ctx):
    progs, deep = scn['programs'], scn['deep']
    solos = [alone(p, deep) for p in progs]
    total = sum(s[1] for s in solos)
    ctx.steps += total
    policy = dict(scn['policy'])
    if policy['kind'] == 'pct':
        policy['points'] = sorted(1 + int(c * total) for c in policy['changes'])
    sched = simthreads.Schedule(Rng('schedule', scn['seed']), policy, deep=deep,
                                limit=20 * total + 200000)
    outs = [[] for _ in progs]
    threads = [sched.add(f"thread{k}", lambda p=p, o=o: work(p, o))
               for k, (p, o) in enumerate(zip(progs, outs))]
    for k, kind, u, v in scn['faults']:
        if k >= len(threads) or not solos[k][2]:
            continue
        times = solos[k][2][int(u * len(solos[k][2]))]
        at = times[int(v * len(times))]
        setattr(threads[k], kind + '_at', at)
    before = settings()
    try:
        simulate(scn, ctx, progs, solos, sched, threads, outs, before)
    except Violation:
        if len(sched.log) < 3000:
            # the schedule as it happened, to be minimised and replayed by itself
            ctx.refined = {**scn, 'policy': {'kind': 'explicit', 'switches': sched.log}}
        raise


def simulate(scn, ctx, progs, solos, sched, threads, outs, before):
    sched.run()
    ctx.time += sched.steps
    ctx.log('switches', len(sched.log), sched.steps)
    ctx.h.update(repr(sched.log).encode())
    for p in sched.pairs:
        ctx.state(p)
    ctx.probe('changes of control', sched.switches)
    for k, kind, u, v in scn['faults']:
        if k < len(threads) and getattr(threads[k], kind + '_at') is None:
            ctx.fault('thread ' + ('ended' if kind == 'kill' else 'stalled') + ' mid-operation')

    for k, (t, out, solo) in enumerate(zip(threads, outs, solos)):
        ctx.log(t.name, t.value[0] if t.value else None, len(out),
                [o[1] if o[0] == 'ok' and isinstance(o[1], np.ndarray) else o[0] for o in out])
        kind = t.value[0]
        if kind == 'raised':
            e = t.value[1]
            if not isinstance(e, Exception):
                raise e
            raise Violation(f"{t.name} died of {type(e).__name__}: {e}", 'died thread')
        if kind == 'killed' and t.killed is None:
            raise AssertionError('killed for no reason')
        for j, o in enumerate(out):
            ctx.judged()
            bad = differ(o, solo[0][j])
            if bad:
                raise Violation(f"{t.name}, result {j}: {bad} when it runs alone "
                                f"({len(sched.log)} changes of control)", 'influence')
        if kind == 'value' and len(out) != len(solo[0]):
            raise Violation(f"{t.name}: {len(out)} results, {len(solo[0])} when it runs alone",
                            'influence')
    after = settings()
    for k in before:
        ctx.judged()
        if before[k] != after[k]:
            raise Violation(f"{k}: {str(after[k])[:160]} after the threads finished, "
                            f"{str(before[k])[:160]} before", 'settings')
    # whoever comes next finds nothing locked or left over
    if sched.switches:
        for j, (o, p) in enumerate(zip(work(progs[0][:2], []), solos[0][0])):
            ctx.judged()
            bad = differ(o, p)
            if bad:
                raise Violation(f"afterwards: {bad}", 'afterwards')


def shrink(scn):
    n = len(scn['programs'])
    if scn['policy']['kind'] == 'explicit':
        for c in shrink_list(scn['policy'], 'switches'):
            yield {**scn, 'policy': c}
    for k in range(n):
        if n > 1 and scn['policy']['kind'] != 'explicit':
            yield {**scn, 'programs': scn['programs'][:k] + scn['programs'][k + 1:],
                   'faults': [f if f[0] < k else [f[0] - 1, *f[1:]] for f in scn['faults']
                              if f[0] != k]}
    for k in range(len(scn['faults'])):
        yield {**scn, 'faults': scn['faults'][:k] + scn['faults'][k + 1:]}
    for k in range(n):
        p = scn['programs'][k]
        for j in range(len(p) - 1, 0, -1):
            c = {**scn, 'programs': list(scn['programs'])}
            c['programs'][k] = p[:j] + p[j + 1:]
            yield c
    if scn['policy']['kind'] == 'pct' and len(scn['policy']['changes']) > 1:
        for k in range(len(scn['policy']['changes'])):
            ch = scn['policy']['changes']
            yield {**scn, 'policy': {'kind': 'pct', 'changes': ch[:k] + ch[k + 1:]}}
    if scn['deep']:
        yield {**scn, 'deep': False}
