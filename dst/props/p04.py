"""P04: the solution in force is the last one requested; queries only read"""
import numpy as np

from .. import faults, gen, ref, sut
from ..gen import Rejected, apply_ref
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import Oracle, Subject, ask, outcome, shrink_list

LEVEL = 'exploration'
COUNTS = {'quick': 900, 'thorough': 7000}
LIMIT = 90.
TIME_UNIT = 'operations on a model'
STATE_MEASURE = 'triples (kind of solution in force, operation, standing of the definition)'
RULE = ('One run takes a model through a seeded history of explicit solve requests (orders, '
        'simulations at an order, occasionally-binding solves), requests that must fail (bad '
        'orders, constraints, shocks, models without a stable solution), requests struck by an '
        'interrupt, memory exhaustion or a failing numerical call, edits, and reading '
        'operations of every public kind (statistics, summaries, printing, plots, impulse '
        'responses, random simulations, filters, copies). After each, the order in force must '
        'be that of the last successful request, and the solution reported is compared with '
        'the reference at that order. Non-trivial: a solution in force was judged.')
REAL = ['all of pynare, autograd, numpy, scipy, matplotlib (Agg)']
STUB = ['asynchronous exceptions are raised by a line tracer; numerical library entry points '
        'are wrapped to fail on cue']
ASSUMPTIONS = ['a simulation at a given order that fails after its solve may leave either order '
               'in force (property P02)', 'no order is defined while an occasionally-binding '
               'solution is in force, nor which linear order follows an edit of such a model']

READS = ['repr', 'plot_irf', 'plot_sim', 'irf_all', 'random_sim', 'sim_stats', 'summary_opts',
         'filter', 'copy', 'regimes', 'vars', 'scope', 'statespace', 'bad_irf', 'bad_sim',
         'stats_unknown']
BAD = ['order3', 'order-1', 'orderx', 'constraint_text', 'constraint_three', 'no_exprs',
       'expr_text', 'expr_range', 'exog', 'shocks_text', 'shocks_shape', 'init_shape',
       'sim_order', 'constraint_name']


def plan(rng, i, tier):
    d = gen.model(rng.child('m'), tiny=rng.random() < .15, max_n=4)
    start, ops = d, []
    n = rng.randint(7, 13) if tier == 'quick' else rng.randint(10, 24)
    while len(ops) < n:
        u = rng.random()
        if u < .2:
            op = {'op': 'solve', 'order': rng.choice([0, 1, 1, 2, 2])}
        elif u < .27:
            op = {'op': 'simulate', 'order': rng.choice([1, 2]), 'periods': rng.randint(2, 5),
                  'rand': rng.random() < .5}
        elif u < .34:
            op = {'op': 'occbin', 'bind': rng.random() < .5}
        elif u < .44:
            op = {'op': 'badsolve', 'what': rng.choice(BAD)}
        elif u < .54:
            op = {'op': 'strike', 'kind': rng.choice(faults.FAULTS), 'at': round(rng.random(), 6),
                  'when': round(rng.random(), 6),
                  'target': rng.choice([{'op': 'solve', 'order': rng.choice([1, 2])},
                                        {'op': 'solve', 'order': rng.choice([1, 2])},
                                        {'op': 'simulate', 'order': rng.choice([1, 2]),
                                         'periods': 3, 'rand': True},
                                        {'op': 'occbin', 'bind': False}])}
        elif u < .68:
            op = {'q': rng.choice(gen.QUERY_NAMES), 's': rng.randrange(10 ** 6)}
        elif u < .84:
            op = {'op': 'read', 'what': rng.choice(READS), 's': rng.randrange(10 ** 6)}
        else:
            op = gen.edit(rng, d, allow_break=.25)
            try:
                d = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                pass
        op['look'] = rng.choice(['', 'solution', 'solution', 'first', 'sim', 'irf', 'mean'])
        ops.append(op)
    return {'model': start.dump(), 'ops': ops, 'final': rng.randrange(10 ** 6)}


# ---------------------------------------------------------------------------------
def occbin(m, d, bind):
    v, x = d.endog[0]
    l, r = d.exprs[0]
    lo = -.02 if bind else -10. ** 6
    return m.solve(constraint=[f"{v} < {lo:.2f}", f"{v} > {lo:.2f}"],
                   exprs={0: ref.expr_text([l, gen.add(r, gen.N(.01))])},
                   shocks=[-.4, 0., .2], periods=12)


def request(m, d, t):
    if t['op'] == 'solve':
        return m.solve(order=t['order'])
    if t['op'] == 'simulate':
        if t['rand']:
            return m.simulate(periods=t['periods'], order=t['order'])
        return m.simulate(shocks=np.full((t['periods'], len(d.stoch)), .1), order=t['order'])
    return occbin(m, d, t['bind'])


def bad_request(m, d, what):
    v = d.endog_names[0]
    l, r = d.exprs[0]
    con, ex = [f"{v} < -9.0", f"{v} > -9.0"], {0: ref.expr_text(d.exprs[0])}
    kw = dict(constraint=con, exprs=ex, shocks=[.1, 0.], periods=4)
    if what == 'order3':
        return m.solve(order=3)
    if what == 'order-1':
        return m.solve(order=-1)
    if what == 'orderx':
        return m.solve(order='first')
    if what == 'sim_order':
        return m.simulate(order=5)
    if what == 'constraint_text':
        kw['constraint'] = [f"{v} < * 2", f"{v} > 1"]
    elif what == 'constraint_three':
        kw['constraint'] = [f"{v} < 1", f"{v} > 1", f"{v} > 2"]
    elif what == 'constraint_name':
        kw['constraint'] = ["no_such_variable < 1", f"{v} > 1"]
    elif what == 'no_exprs':
        kw['exprs'] = {}
    elif what == 'expr_text':
        kw['exprs'] = {0: f"{v} = = 2"}
    elif what == 'expr_range':
        kw['exprs'] = {99: f"{v} = 2"}
    elif what == 'exog':
        kw['exog'] = 'no_such_shock'
    elif what == 'shocks_text':
        kw['shocks'] = ['a', 'b']
    elif what == 'shocks_shape':
        kw['shocks'] = np.zeros((4, len(d.stoch) + 2))
        kw['exog'] = d.stoch_names[0]
    elif what == 'init_shape':
        kw['init'] = np.zeros(len(d.endog) + 3)
    return m.solve(**kw)


def read(m, d, what, seed):
    rng = Rng('read', seed)
    if what == 'repr':
        out = [repr(m), repr(m.params), str(m.params), repr(m.exprs), repr(m.ss), repr(m.endog),
               repr(m.stats), repr(m.statespace), repr(m.indexes), repr(m.solution)]
        return out
    if what in ('plot_irf', 'plot_sim'):
        import matplotlib.pyplot as plt
        try:
            if what == 'plot_irf':
                return m.impulse_response(periods=4).plot(layout=rng.choice(['rect', 'column']))
            return m.simulate(periods=4).plot()
        finally:
            plt.close('all')
    if what == 'irf_all':
        return [m.impulse_response(s, periods=3).impulse for s in d.stoch_names] + \
            [m.impulse_response(periods=3).impulse]
    if what == 'random_sim':
        return m.simulate(periods=rng.randint(2, 6)).paths
    if what == 'sim_stats':
        s = m.simulate(periods=8)
        return s.corr(drop=2), s.autocorr(p=2)
    if what == 'summary_opts':
        return [str(m.summary(sig=3, pad=2, variables=rng.random() < .5)),
                str(m.summary(eigen=False)), str(m.stats.summary(autocorr=2)),
                str(m.solution.summary())]
    if what == 'filter':
        from pynare.stats.filters import filter_model
        f = filter_model(m, np.array([[.1], [.2], [0.]]), obs={'obs_': d.endog_names[0]})
        return f.filter()
    if what == 'copy':
        c = m.copy()
        return c.solve(order=rng.choice([1, 2]))
    if what == 'regimes':
        from pynare.regimes import RegimeSwitchingModel
        rs = RegimeSwitchingModel(m, exprs=[{0: ref.expr_text(d.exprs[0])}])
        return [x.solve(order=1) for x in rs.models]
    if what == 'vars':
        return [m.state_vars, m.forward_vars, m.static_vars, m.mixed_vars, m.backward_vars,
                m.initial, m.exog]
    if what == 'scope':
        return dict(m.model_scope), dict(m.params), list(m.exprs)
    if what == 'statespace':
        ss = m.statespace
        return ss.eigen, ss.kalman_transition, ss.sigma, m.ss.jacobian, m.ss.results
    if what == 'bad_irf':
        return m.impulse_response('no_such_shock')
    if what == 'bad_sim':
        return m.simulate(shocks=np.zeros((3, len(d.stoch) + 1)))
    if what == 'stats_unknown':
        return m.stats.no_such_statistic()
    raise KeyError(what)


# ---------------------------------------------------------------------------------
class InForce:
    """what must be in force: ('default',) | ('linear', k) | ('occbin', paths) | ('either', ...)
    | ('free',)"""

    def __init__(self, s, ctx):
        self.s, self.ctx, self.now = s, ctx, ('default',)

    def options(self):
        return self.now[1] if self.now[0] == 'either' else [self.now]

    def fits(self, opt):
        order = self.s.m.solution_order
        if opt[0] == 'default':
            return order in (None, 2)
        if opt[0] == 'linear':
            return order == opt[1]
        if opt[0] == 'free':
            return order in (None, 1, 2)
        # an occasionally-binding solution is returned as it is, until the model is edited
        ok, sol = outcome(lambda: self.s.m.solution)
        return ok and getattr(sol, 'paths', None) is not None and \
            np.array_equal(sol.paths, opt[1], equal_nan=True)

    def check(self, after):
        opts = [o for o in self.options() if self.fits(o)]
        self.ctx.judged()
        if not opts:
            raise Violation(f"after {after} the order in force is {self.s.m.solution_order}, "
                            f"it should be {self.text()}", 'order')
        if len(opts) < len(self.options()):
            self.now = opts[0] if len(opts) == 1 else ('either', opts)
        k = self.now
        if k[0] in ('default', 'linear'):
            self.s.order = k[1] if k[0] == 'linear' else None
            return True
        if k[0] == 'free':
            self.s.order = self.s.m.solution_order
            return True
        return k[0] != 'either' and False

    def text(self):
        return ' or '.join('2 (none was requested)' if o[0] == 'default' else
                           str(o[1]) if o[0] == 'linear' else
                           'any' if o[0] == 'free' else 'that of the piecewise solution'
                           for o in self.options())

    def linear(self):
        return all(o[0] in ('default', 'linear') for o in self.options()) and \
            self.now[0] != 'either'

    def edited(self):
        """occasionally-binding solutions don't outlive edits"""
        opts = [o if o[0] != 'occbin' else ('free',) for o in self.options()]
        self.now = opts[0] if len(opts) == 1 else ('either', opts)

    def became(self, t, got):
        if t['op'] == 'occbin':
            return ('occbin', np.array(got.paths))
        return ('linear', t['order'] or 2)


def run(scn, ctx):
    oracle = Oracle(ctx)
    s = Subject(ctx, oracle, Defn.load(scn['model']))
    force = InForce(s, ctx)
    for n, op in enumerate(scn['ops']):
        ctx.time += 1
        what = step(s, force, op, ctx, oracle)
        if what is None:
            continue
        ctx.state(force.now[0], what, oracle.view(s.defn).kind)
        ctx.log(n, what, s.m.solution_order)
        settle(s, force, what)
        look(s, force, op.get('look'), n, what)
        s.expect_definition(what)
    settle(s, force, 'the end')
    if force.linear():
        for q in ('solution', 'first', 'sim', 'mean'):
            look(s, force, q, 'final', 'the end')
    else:
        look(s, force, 'first', 'final', 'the end')


def settle(s, force, what):
    force.check(what)


def look(s, force, q, n, what):
    if not q:
        return
    if force.now[0] == 'free':
        # whichever order it is, it must be a solution of this model
        ok, sol = outcome(lambda: s.m.solution)
        if ok:
            order = getattr(sol, 'order', None)
            if order not in (1, 2):
                raise Violation(f"after {what} the model reports a {type(sol).__name__} for a "
                                "definition edited since", 'stale')
            force.now = ('linear', order)
            s.order = order
        else:
            return
    if not force.linear() and q != 'first':
        return
    s.query({'q': q, 's': n})
    force.check(f"{what} and {q}")


def step(s, force, op, ctx, oracle):
    m, d = s.m, s.defn
    v = oracle.view(d)
    if 'q' in op:
        linear_only = op['q'] in ('solution', 'irf', 'sim', 'mean', 'summary')
        if force.now[0] == 'free' and linear_only:
            look(s, force, 'solution', op['s'], op['q'])
        if linear_only and not force.linear():
            ask(m, d, op)
            return op['q'] + ' (not judged)'
        s.query(op)
        return op['q']
    k = op['op']
    if k == 'read':
        if not d.exprs or not d.endog:
            return None
        ok, got = outcome(read, m, d, op['what'], op['s'])
        ctx.log(op['what'], ok, type(got).__name__)
        if op['what'].startswith('bad') or op['what'] == 'stats_unknown':
            ctx.fault('failing query')
            if ok:
                raise Violation(f"{op['what']} succeeded", 'accepted')
        elif not ok and v.kind == 'unique' and force.linear() and \
                op['what'] not in ('filter', 'plot_irf', 'plot_sim', 'repr'):
            raise Violation(f"{op['what']} raised {type(got).__name__}: {str(got)[:160]}",
                            'raised')
        return op['what']
    if k in ('solve', 'simulate', 'occbin'):
        if not d.exprs or not d.endog:
            return None
        ok, got = outcome(request, m, d, op)
        if k != 'occbin':
            old = s.order
            s.solved(v, ok, got, op.get('order') or 2, f"{k}(order={op['order']})")
            s.order = old
        if ok:
            force.now = force.became(op, got)
        else:
            ctx.fault('failing request')
        return f"{k} {op.get('order', '')} {'succeeded' if ok else 'failed'}"
    if k == 'badsolve':
        if not d.exprs or not d.endog:
            return None
        ok, got = outcome(bad_request, m, d, op['what'])
        ctx.fault('bad request')
        if ok:
            raise Violation(f"solve request {op['what']} was accepted", 'accepted')
        return f"bad request {op['what']}"
    if k == 'strike':
        if not d.exprs or not d.endog:
            return None
        return strike(s, force, op, ctx, v)
    changed = s.edit(op)
    if changed:
        force.edited()
    return op.get('what', k)


def strike(s, force, op, ctx, v):
    m, d, t = s.m, s.defn, op['target']
    # how much there is to strike is counted on a twin
    twin = None
    if not d.problems():
        ok, twin = outcome(sut.build, d)
        twin = twin if ok else None
    if twin is None:
        return None
    _, _, inj = faults.attempt(op['kind'], None, request, twin, d, t)
    if not inj.count:
        return None
    at = faults.moment(inj, True, op['at'], op['when'])
    before = force.options()
    ok, got, inj = faults.attempt(op['kind'], at, request, m, d, t)
    ctx.steps += inj.count
    if inj.where is not None:
        ctx.fault(op['kind'])
    if ok:
        force.now = force.became(t, got)
        if t['op'] != 'occbin' and v.kind == 'nonunique':
            raise Violation(f"{t['op']} succeeded on a model without a unique stable solution "
                            f"when struck by {op['kind']} at {inj.where}", 'verdict')
    elif inj.where is not None:
        # before or after. which occasionally-binding solution that is can't be known here
        if t['op'] == 'occbin':
            new = ('free',) if v.kind in ('unique', 'unsure', 'vague') else None
            now = outcome(lambda: m.solution)
            if now[0] and getattr(now[1], 'paths', None) is not None:
                new = ('occbin', np.array(now[1].paths))
            elif m.solution_order is not None:
                new = None
        else:
            new = ('linear', t['order'])
        opts = before + ([new] if new else [])
        force.now = opts[0] if len(opts) == 1 else ('either', opts)
        # tell them apart
        fits = [o for o in opts if force.fits(o)]
        if len(fits) > 1:
            concrete = [o for o in fits if o[0] != 'free']
            force.now = (concrete or fits)[0] if not any(o[0] == 'occbin' for o in fits) else \
                [o for o in fits if o[0] == 'occbin'][0]
            if ('default',) in fits and m.solution_order == 2:
                force.now = ('linear', 2)
    return f"{t['op']} {t.get('order', '')} struck by {op['kind']} at {inj.where}"


def shrink(scn):
    yield from shrink_list(scn, 'ops')
    for i, op in enumerate(scn['ops']):
        if op.get('look'):
            c = {**scn, 'ops': list(scn['ops'])}
            c['ops'][i] = {**op, 'look': ''}
            yield c
