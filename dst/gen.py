"""seeded generation of models, of edits to them and of the histories they live through"""
import json

import numpy as np

from . import ref
from .ref import Defn

ENDOG = ['c', 'k', 'y', 'pinf', 'r', 'a', 'z', 'h', 'w', 'q', 'inv', 'lam', 'mc', 'gap']
STOCH = ['eps_a', 'eps_r', 'eu', 'shk', 'nu']
PARAM = ['alpha', 'beta', 'rho', 'phi', 'theta', 'kap', 'sig', 'psi', 'del_', 'omega', 'tau',
         'gam', 'eta', 'chi']
LOCAL = ['loc_a', 'loc_b']
DETERM = ['dsh', 'dtx', 'dgov']

N = lambda v: ['n', round(float(v), 6)]
P = lambda s: ['p', s]
V = lambda s, l=0: ['v', s, l]


def add(a, b): return ['+', a, b]
def mul(a, b): return ['*', a, b]


class Coef:
    """hands out coefficients: literals, parameters, dependent parameters, locals"""

    def __init__(self, rng, use_locals=True):
        self.rng = rng
        self.params, self.locals = {}, {}
        self.free = list(PARAM)
        rng.shuffle(self.free)
        self.free_locals = list(LOCAL) if use_locals else []

    def get(self, v):
        rng, v = self.rng, round(float(v), 4)
        u = rng.random()
        if u < .25 or not self.free:
            return N(v) if v >= 0 else ['neg', N(-v)]
        numeric = [k for k, d in self.params.items() if isinstance(d, float)]
        if u < .45 and numeric:
            # defined in terms of another parameter: new = base * ratio (+ shift)
            base = rng.choice(numeric)
            b = self.params[base]
            shift = round(rng.choice([0., .1, -.2]), 3)
            if abs(b) > .05:
                name = self.free.pop()
                ratio = (v - shift) / b
                e = mul(P(base), N(abs(ratio))) if ratio >= 0 else ['neg', mul(P(base), N(-ratio))]
                if shift:
                    e = ['+' if shift > 0 else '-', e, N(abs(shift))]
                self.params[name] = e
                return P(name)
        if u < .55 and numeric and self.free_locals:
            base = rng.choice(numeric)
            b = self.params[base]
            if abs(b) > .05:
                name = self.free_locals.pop(0)
                ratio = v / b
                self.locals[name] = mul(P(base), N(abs(ratio))) if ratio >= 0 \
                    else ['neg', mul(P(base), N(-ratio))]
                return P(name)
        name = self.free.pop()
        self.params[name] = v
        return P(name)


def _dev(name, lag, level):
    return V(name, lag) if level is None else ['-', V(name, lag), level]


def bend(rng, t, co):
    """a curved function of t, zero where t is, with no kink nor pole nearby"""
    one = add(N(1.), t)
    k = rng.randrange(12)
    if k == 0:
        return ['-', ['exp', t], N(1.)]
    if k == 1:
        return [rng.choice(['sin', 'tan', 'asin', 'atan', 'erf']), t]
    if k == 2:
        return ['log', one]
    if k == 3:
        return ['log10', one]
    if k == 4:
        return ['-', ['sqrt', one], N(1.)]
    if k == 5:
        return ['-', ['/', N(1.), one], N(1.)]
    if k == 6:
        return ['-', ['^', one, co.get(rng.uniform(.3, 2.5))], N(1.)]
    if k == 7:
        return ['-', ['^', N(rng.uniform(1.2, 2.5)), t], N(1.)]
    if k == 8:
        return ['-', ['abs', one], N(1.)]
    if k == 9:
        return mul(['sign', one], t)
    if k == 10:
        return ['/', t, one]
    return ['neg', ['neg', t]]


def _attempt(rng, opts):
    n = opts.get('n') or rng.randint(1 if opts.get('tiny') else 2, opts.get('max_n', 5))
    names = rng.sample(ENDOG, n)
    n_sh = rng.randint(1, min(3, n))
    shocks = rng.sample(STOCH, n_sh)
    u = rng.random()
    if u < .1 and n > 1:
        # names that could be mistaken for another variable's lead or lag
        names[1] = names[0] + rng.choice(['m1', 'p1', '_m1', '_p1'])
    elif u < .14:
        shocks[0] = names[0] + rng.choice(['m1', 'p1'])
    co = Coef(rng, opts.get('locals', True))

    # roles, with at least one state variable
    roles = [rng.choice(opts.get('roles', ['back', 'back', 'mixed', 'fwd', 'static', 'log']))
             for _ in names]
    if not any(r in ('back', 'mixed', 'log') for r in roles):
        roles[rng.randrange(n)] = 'back'

    level, init = {}, {}
    for v, r in zip(names, roles):
        if r == 'log':
            level[v], init[v] = N(1.), 1.
        elif rng.random() < .35:
            s = round(rng.uniform(.5, 3), 2)
            level[v], init[v] = co.get(s), s
        else:
            level[v], init[v] = None, 0.

    dev = lambda v, lag: _dev(v, lag, level[v])
    exprs = []
    for i, (v, r) in enumerate(zip(names, roles)):
        if r == 'log':
            lhs = ['log', V(v)]
            rhs = mul(co.get(rng.uniform(.2, .9)), ['log', V(v, -1)])
        else:
            lhs = V(v)
            if r == 'back':
                rhs = mul(co.get(rng.uniform(-.5, .9)), dev(v, -1))
            elif r == 'mixed':
                a = rng.uniform(.1, .5)
                rhs = add(mul(co.get(a), dev(v, -1)),
                          mul(co.get(rng.uniform(.1, .85 - a)), dev(v, 1)))
            elif r == 'fwd':
                rhs = mul(co.get(rng.uniform(.2, .9)), dev(v, 1))
            else:
                rhs = None
            if level[v] is not None:
                rhs = level[v] if rhs is None else add(level[v], rhs)
        terms = []
        others = [w for w in names if w != v]
        for w in others:
            if rng.random() < .55:
                j = names.index(w)
                lag = rng.choice([-1, 0, 0, 1]) if rng.random() < .3 else 0
                size = rng.uniform(-.6, .6) if j < i else rng.uniform(-.15, .15)
                t = dev(w, lag)
                if rng.random() < .35:
                    t = bend(rng, t, co)
                terms.append(mul(co.get(size), t))
        if rng.random() < .5:
            # a second-order term around the steady state
            w1, w2 = rng.choice(names), rng.choice(names)
            l1 = 0 if rng.random() < .6 else rng.choice([-1, 1])
            t = ['^', dev(w1, l1), N(2.)] if w1 == w2 else mul(dev(w1, l1), dev(w2, 0))
            terms.append(mul(co.get(rng.uniform(-.3, .3)), t))
        if i < n_sh:
            t = V('', 0)
            t = ['e', shocks[i]]
            if rng.random() < .3:
                t = mul(co.get(rng.uniform(.3, 1.2)), t)
            terms.append(t)
        elif rng.random() < .2:
            terms.append(mul(N(rng.uniform(.1, .8)), ['e', rng.choice(shocks)]))
        for t in terms:
            u = rng.random()
            if u < .15:
                t = ['neg', t]
            if rhs is None:
                rhs = t
            elif u > .8:
                rhs = ['-', rhs, t]
            elif u > .7:
                rhs = add(t, rhs)
            else:
                rhs = add(rhs, t)
        if rhs is None:
            rhs = N(0.)
        u = rng.random()
        exprs.append([rhs, lhs] if u < .08 else [['neg', lhs], ['neg', rhs]] if u < .12 else
                     [N(0.), ['-', lhs, rhs]] if u < .16 else [lhs, rhs])

    if rng.random() < .3 and n > 1:
        # an equation that is the sum of two
        i, j = rng.sample(range(n), 2)
        exprs[i] = [add(exprs[i][0], exprs[j][0]), add(exprs[i][1], exprs[j][1])]
    rng.shuffle(exprs)
    order = list(zip(names, [init[v] for v in names]))
    rng.shuffle(order)

    stoch = moments(rng, shocks)

    # a few parameters nobody uses yet
    params = dict(co.params)
    if rng.random() < .4 and co.free:
        params[co.free.pop()] = round(rng.uniform(.1, .9), 3)
    items = list(params.items())
    if rng.random() < .5:
        rng.shuffle(items)          # declared before what they depend on
    extra = {}
    if rng.random() < .25:
        for k in ('terminal', 'historical'):
            some = {v: bound(rng) for v in names if rng.random() < .5}
            if some and rng.random() < .6:
                extra[k] = some
        if rng.random() < .4:
            extra['determ'] = [[s, None, None] for s in rng.sample(DETERM, rng.choice([1, 1, 2]))]
    return Defn([list(o) for o in order], stoch, dict(items), co.locals, exprs,
                rng.choice(['', 'toy', 'nk']), extra)


def bound(rng):
    return rng.choice([0., 1., round(rng.uniform(-2, 2), 3)])


def well_behaved(defn, margin=.04, order2=True):
    """solvable with room to spare, so that no tolerance is ever in question"""
    if defn.problems():
        return False
    try:
        ss = defn.newton_ss([x for _, x in defn.endog])
        if ss is None or np.abs(ss).max() > 50:
            return False
        s = ref.Solved(defn, ss)
        if s.lin.verdict(margin) != 'unique' or s.first is None:
            return False
        if not s.lin.state:
            return False       # pynare doesn't do purely forward-looking models
        G, H = s.first
        M = s.lin.A @ G + s.lin.B
        if np.linalg.cond(M) > 1e4 or np.abs(G).max() > 20 or np.abs(H).max() > 50:
            return False
        if np.max(np.abs(np.linalg.eigvals(G)), initial=0) > .985:
            return False
        r = s.lin.roots()
        if np.any((r > 1) & (r < 1.02)):
            return False
        if np.linalg.eigvalsh(s.Sigma)[0] < 1e-5:
            return False
        if not separated(s.lin):
            return False
        if order2:
            g = s.second
            if any(np.abs(x).max(initial=0) > 1e3 for x in g):
                return False
    except (ArithmeticError, ValueError, np.linalg.LinAlgError):
        return False
    return True


def separated(lin):
    """the block that the decomposition-based solution inverts is itself well conditioned"""
    G = lin.first_order()
    if G is None:
        return False
    st = lin.state
    S = G[0][np.ix_(st, st)] if st else np.zeros((0, 0))
    return np.isfinite(S).all()


def initial_is_steady(defn):
    x = np.array([v for _, v in defn.endog])
    try:
        r = defn.static_residuals(x)
    except (ArithmeticError, ValueError):
        return False
    return np.abs(r).max() < 1e-9


def model(rng, **opts):
    """a model that is uniquely solvable, with its exact steady state as initial values"""
    while True:
        try:
            d = _attempt(rng, opts)
            if well_behaved(d, order2=opts.get('order2', True)) and initial_is_steady(d):
                return d
        except (ArithmeticError, ValueError):
            continue


# ---------------------------------------------------------------------------------
# edits: JSON operations that are applied both to a definition and to the real model
class Rejected(Exception):
    """the reference's answer to an edit that cannot be made"""


def apply_ref(defn, op):
    """the definition after `op`; raises Rejected if the edit cannot be made"""
    d = defn.copy()
    k = op['op']
    if k == 'set_params':
        d.params.update({n: v for n, v in op['values']})
        try:
            d.param_values()
        except (ref.Unresolvable, ArithmeticError, ValueError) as e:
            raise Rejected(str(e))
    elif k == 'del_param':
        if op['name'] not in d.params:
            raise Rejected('unknown')
        del d.params[op['name']]
        try:
            d.param_values()
        except ref.Unresolvable as e:
            raise Rejected(str(e))
    elif k in ('set_local', 'del_local'):
        if k == 'del_local':
            if op['name'] not in d.locals:
                raise Rejected('unknown')
            del d.locals[op['name']]
        else:
            d.locals.update({n: v for n, v in op['values']})
        try:
            d.scope()
        except (ref.Unresolvable, ArithmeticError, ValueError) as e:
            raise Rejected(str(e))
    elif k == 'set_expr':
        d.exprs[op['i']] = op['eq']
    elif k == 'del_expr':
        del d.exprs[op['i']]
    elif k == 'reverse_exprs':
        d.exprs.reverse()
    elif k == 'clear_exprs':
        d.exprs.clear()
    elif k == 'del_slice':
        del d.exprs[op['i']:op['j']]
    elif k == 'insert_expr':
        d.exprs.insert(op['i'], op['eq'])
    elif k == 'add_exprs':
        d.exprs.extend(op['eqs'])
    elif k == 'add_endog':
        d.endog.extend([list(v) for v in op['vars']])
        for k in ('terminal', 'historical'):
            if op.get(k):
                d.extra[k] = {**d.extra.get(k, {}), **dict(map(tuple, op[k]))}
    elif k == 'add_determ':
        d.extra['determ'] = d.extra.get('determ', []) + [list(v) for v in op['vars']]
    elif k == 'add_stoch':
        d.stoch.extend([[s, dict(m)] for s, m in op['shocks']])
    elif k == 'bad':
        raise Rejected(op['what'])
    else:
        raise KeyError(k)
    return d


def _arg(v, as_ast):
    from . import sut
    a = sut.param_arg(v)
    if as_ast and isinstance(a, str):
        from pynare.parsing import parse_string
        return parse_string(a)
    return a


def apply_real(m, op):
    from . import sut
    k = op['op']
    if k == 'set_params':
        vals = {n: _arg(v, op.get('ast')) for n, v in op['values']}
        how = op.get('how', 'add')
        if how == 'item' and len(vals) == 1:
            for n, v in vals.items():
                m.params[n] = v
        elif how == 'update':
            m.params.update(vals)
        else:
            m.add_params(**vals)
    elif k == 'del_param':
        del m.params[op['name']]
    elif k == 'set_local':
        vals = {n: _arg(v, op.get('ast')) for n, v in op['values']}
        if op.get('how') == 'item' and len(vals) == 1:
            for n, v in vals.items():
                m.local_params[n] = v
        else:
            m.local_params.update(vals)
    elif k == 'del_local':
        del m.local_params[op['name']]
    elif k == 'set_expr':
        m.exprs[op['i']] = ref.expr_text(op['eq'])
    elif k == 'del_expr':
        if op.get('how') == 'pop':
            m.exprs.pop(op['i'])
        else:
            del m.exprs[op['i']]
    elif k == 'reverse_exprs':
        m.exprs.reverse()
    elif k == 'clear_exprs':
        m.exprs.clear()
    elif k == 'del_slice':
        del m.exprs[op['i']:op['j']]
    elif k == 'insert_expr':
        m.exprs.insert(op['i'], ref.expr_text(op['eq']))
    elif k == 'add_exprs':
        texts = [ref.expr_text(e) for e in op['eqs']]
        how = op.get('how', 'add')
        if how == 'append' and len(texts) == 1:
            m.exprs.append(texts[0])
        elif how == 'extend':
            m.exprs.extend(texts)
        elif how == 'iadd':
            m.exprs += texts
        elif how == 'single' and len(texts) == 1:
            m.add_exprs(texts[0])
        else:
            m.add_exprs(texts)
    elif k == 'add_endog':
        names = [v[0] for v in op['vars']]
        m.add_endog(names[0] if len(names) == 1 and op.get('how') == 'single' else names,
                    initial={n: x for n, x in op['vars']},
                    **{k: dict(map(tuple, op[k])) for k in ('terminal', 'historical')
                       if op.get(k)})
    elif k == 'add_determ':
        names = [v[0] for v in op['vars']]
        m.add_determ(names[0] if len(names) == 1 and op.get('how') == 'single' else names,
                     shocks={n: {'periods': list(p), 'values': list(v)} for n, p, v in op['vars']
                             if p is not None})
    elif k == 'add_stoch':
        names = [s for s, _ in op['shocks']]
        m.add_stoch(names[0] if len(names) == 1 and op.get('how') == 'single' else names,
                    shocks=sut.given_moments(op['shocks']))
    elif k == 'bad':
        _apply_bad(m, op)
    else:
        raise KeyError(k)


def _apply_bad(m, op):
    w = op['what']
    if w == 'expr_text':
        m.add_exprs(op['text'])
    elif w == 'exprs_one_bad':
        m.add_exprs([ref.expr_text(op['eq']), op['text']])
    elif w == 'set_expr_text':
        m.exprs[op['i']] = op['text']
    elif w == 'expr_type':
        m.add_exprs(17)
    elif w == 'param_type':
        m.add_params(**{op['name']: [1, 2]})
    elif w == 'param_type_item':
        m.params[op['name']] = None
    elif w == 'param_text':
        m.add_params(**{op['name']: '2 * + '})
    elif w == 'params_one_bad':
        m.add_params(**{op['name']: .123, op['name2']: 'no_such_parameter + 1'})
    elif w == 'stoch_type':
        m.add_stoch('zz', shocks=3)
    elif w == 'stoch_unknown_moment':
        m.add_stoch('zz', shocks={'zz': {'skewness': 1.}})
    elif w == 'order':
        m.solve(order=op.get('order', 3))
    elif w == 'del_unknown':
        del m.params['no_such_parameter']
    elif w == 'del_expr_range':
        del m.exprs[len(m.exprs) + 3]
    elif w == 'regime':
        m.solve(constraint=['x < 1'], exprs={0: 'a = b'})
    else:
        raise KeyError(w)


BAD = ['expr_text', 'exprs_one_bad', 'set_expr_text', 'expr_type', 'param_type',
       'param_type_item', 'param_text', 'params_one_bad', 'stoch_type',
       'stoch_unknown_moment', 'order', 'del_unknown', 'del_expr_range']


def variance(rng):
    return rng.choice([round(rng.uniform(.001, .05), 5), round(rng.uniform(.05, 1.), 5),
                       round(rng.uniform(.01, .5), 4), round(rng.uniform(.01, .5), 4),
                       rng.choice([1, 1., 2])])


def related(rng, m, other, mo):
    m['other'], c = other, round(rng.choice([rng.uniform(-.6, .6)] * 6 + [0., 1]), 3)
    c = c if c != 1 else rng.choice([.5, -.25])
    kind = rng.choice(['corr', 'corr', 'corr', 'cov', 'cov', 'cov', 'both'])
    if kind != 'cov':
        m['corr'] = c
    if kind != 'corr':
        m['cov'] = round(c * rng.choice([1., .5] if kind == 'both' else [1.]) *
                         (m['variance'] * mo['variance']) ** .5, 8)


def definite(d):
    return np.linalg.eigvalsh(d.sigma()).min() > 1e-4 * np.diag(d.sigma()).max()


def moments(rng, shocks):
    """variances, and correlations or covariances with some other shock, earlier or later"""
    out = [[s, {'variance': variance(rng)}] for s in shocks]
    for i, (s, m) in enumerate(out):
        if len(out) > 1 and rng.random() < .4:
            related(rng, m, *rng.choice([x for x in out if x[0] != s]))
            if not definite(Defn([], out, {}, {}, [])):
                out[i] = [s, {'variance': m['variance']}]
    return out


def numeric_params(d):
    return [k for k, v in d.params.items() if isinstance(v, (int, float))]


def perturbed(rng, v, wide=False):
    if rng.random() < .12:
        return rng.choice([0., 0, 1, 1., -1, 2, .5])
    f = rng.uniform(.3, 1.5) if not wide else rng.choice([rng.uniform(-2, 2), rng.uniform(1, 4)])
    return round(v * f + rng.uniform(-.05, .05), 4)


def edit(rng, d, allow_break=.2, tries=20):
    """a random edit; usually one after which the definition is still well behaved"""
    for _ in range(tries):
        if rng.random() < .012 * bool(allow_break):
            # a lead or lag of two periods beside one of one, which pynare has to refuse
            both = [(i, c) for i, e in enumerate(d.exprs) for c in sorted(Defn(
                d.endog, d.stoch, {}, {}, [e]).incidence()) if c[0] == 'v' and abs(c[2]) == 1]
            if both:
                i, (_, v, lag) = rng.choice(both)
                l, r = d.exprs[i]
                return {'op': 'set_expr', 'i': i,
                        'eq': [l, add(r, mul(N(.05), V(v, 2 * lag)))]}
        op = _edit(rng, d)
        if op is None:
            continue
        try:
            nd = apply_ref(d, op)
        except Rejected:
            if rng.random() < .4:
                return op
            continue
        if not any(c[2] == -1 for c in nd.incidence() if c[0] == 'v') and not nd.problems():
            continue       # pynare doesn't do models without any lag
        if well_behaved(nd) or rng.random() < allow_break:
            return op
    return {'op': 'set_params', 'values': [['unused_', round(rng.random(), 3)]]}


def _edit_local(rng, d):
    """redefine a variable local to the model block"""
    n = rng.choice(list(d.locals))
    if rng.random() < .1:
        return {'op': 'del_local', 'name': n}
    try:
        sc = d.scope()
    except (ref.Unresolvable, ArithmeticError, ValueError):
        return None
    e = perturbed(rng, sc[n])
    through = [o for o in sc if abs(sc[o]) > .05 and o != n and
               (o in d.params or list(d.locals).index(o) < list(d.locals).index(n))]
    if through and rng.random() < .5:
        o = rng.choice(through)
        e = mul(P(o), N(abs(e / sc[o]))) if e / sc[o] >= 0 else ['neg', mul(P(o), N(-e / sc[o]))]
    return {'op': 'set_local', 'values': [[n, e]], 'ast': rng.random() < .3,
            'how': rng.choice(['item', 'update'])}


def _edit(rng, d):
    nums = numeric_params(d)
    u = rng.random()
    if d.locals and rng.random() < .12:
        return _edit_local(rng, d)
    if u < .4 and nums:
        k = min(len(nums), rng.choice([1, 1, 1, 2]))
        vals = [[n, perturbed(rng, d.params[n])] for n in rng.sample(nums, k)]
        return {'op': 'set_params', 'values': vals,
                'how': rng.choice(['add', 'item', 'update'])}
    if u < .52 and d.params:
        # (re)define a parameter through another
        n = rng.choice(list(d.params))
        others = [p for p in d.params if p != n]
        if not others:
            return None
        o = rng.choice(others)
        try:
            pv = d.param_values()
        except (ref.Unresolvable, ArithmeticError):
            return None
        if abs(pv[o]) < .05:
            return None
        ratio = pv[n] / pv[o] * rng.uniform(.6, 1.2)
        e = mul(P(o), N(abs(ratio))) if ratio >= 0 else ['neg', mul(P(o), N(-ratio))]
        return {'op': 'set_params', 'values': [[n, e]], 'ast': rng.random() < .3,
                'how': rng.choice(['add', 'item', 'update'])}
    if u < .58 and d.params:
        return {'op': 'del_param', 'name': rng.choice(list(d.params))}
    if u < .64:
        free = [p for p in PARAM if p not in d.params]
        if not free:
            return None
        return {'op': 'set_params', 'values': [[rng.choice(free), round(rng.uniform(.1, .9), 3)]],
                'how': rng.choice(['add', 'item', 'update'])}
    if u < .82 and d.exprs:
        # change one equation: scale a shock, add a term, swap in a different rule
        i = rng.randrange(len(d.exprs))
        l, r = d.exprs[i]
        kind = rng.random()
        if kind < .3:
            # without one of its terms, or without one of its leads or lags
            eq = simpler(rng, [l, r])
            if eq is None:
                return None
        elif kind < .7 and d.endog:
            v, x = rng.choice(d.endog)
            t = V(v, rng.choice([-1, 0, 0, 1]) if rng.random() < .95 else rng.choice([-2, 2]))
            t = t if abs(x) < 1e-12 else ['-', t, N(x)] if x >= 0 else add(t, N(-x))
            if rng.random() < .25:
                t = ['^', t, N(2.)]     # only felt at second order
            eq = [l, add(r, mul(N(rng.uniform(.02, .3)), t))]
        else:
            eq = [l, add(r, N(rng.uniform(.01, .3)))]      # moves the steady state
        return {'op': 'set_expr', 'i': i, 'eq': eq}
    if u < .86 and d.exprs:
        w = rng.random()
        if w < .4 and len(d.exprs) > 1:
            return {'op': 'reverse_exprs'}
        if w < .5 and len(d.exprs) > 1:
            i = rng.randrange(len(d.exprs) - 1)
            return {'op': 'del_slice', 'i': i, 'j': i + 2}
        if w < .55:
            return {'op': 'clear_exprs'}
        return {'op': 'del_expr', 'i': rng.randrange(len(d.exprs)), 'how': rng.choice(['del', 'pop'])}
    if u < .875:
        free = [s for s in DETERM if s not in [v[0] for v in d.extra.get('determ', ())]]
        if not free:
            return None
        when = rng.random() < .7
        return {'op': 'add_determ',
                'vars': [[rng.choice(free), [1, 3] if when else None, [.5, 0.] if when else None]],
                'how': rng.choice(['single', 'many'])}
    if u < .90 and d.stoch and len(d.stoch) < 4:
        free = [s for s in STOCH if s not in d.stoch_names]
        if not free:
            return None
        m = {'variance': variance(rng)}
        if rng.random() < .5:
            related(rng, m, *rng.choice(d.stoch))
            if not definite(Defn([], [*d.stoch, [free[0], m]], {}, {}, [])):
                m = {'variance': m['variance']}
        return {'op': 'add_stoch', 'shocks': [[rng.choice(free), m]],
                'how': rng.choice(['single', 'many'])}
    free = [v for v in ENDOG if v not in d.endog_names]
    if not free or len(d.endog) > 5:
        return None
    v = rng.choice(free)
    return {'op': 'add_endog', 'vars': [[v, 0.]], 'how': rng.choice(['single', 'many']),
            **({'terminal': [[v, bound(rng)]]} if rng.random() < .2 else {}),
            **({'historical': [[v, bound(rng)]]} if rng.random() < .1 else {})}


def simpler(rng, eq):
    """the equation without some term, or with some lead or lag taken to now or too far"""
    sites = []

    def walk(path, t):
        if t[0] in '+-':
            sites.append((path, t[1]))
            sites.append((path, t[2] if t[0] == '+' else ['neg', t[2]]))
        if t[0] == 'v' and t[2]:
            sites.append((path, ['v', t[1], 0]))
            if rng.random() < .15:
                # which pynare doesn't do, and has to say so
                sites.append((path, ['v', t[1], 2 * t[2]]))
        for k, x in enumerate(t):
            if isinstance(x, list):
                walk(path + [k], x)

    for side in (0, 1):
        walk([side], eq[side])
    if not sites:
        return None
    path, new = rng.choice(sites)
    eq = json.loads(json.dumps(eq))
    at = eq
    for k in path[:-1]:
        at = at[k]
    at[path[-1]] = json.loads(json.dumps(new))
    return eq


def param_edit(rng, d):
    """an edit of the calibration only, often of something others depend on"""
    for _ in range(30):
        op = _edit(rng, d)
        if op is not None and op['op'] == 'set_params':
            return op
    return {'op': 'set_params', 'values': [['unused_', round(rng.random(), 3)]]}


def grow(rng, d):
    """the steps (in random order) that add one variable, its equation and maybe a shock"""
    free = [v for v in ENDOG if v not in d.endog_names]
    if not free or not d.endog:
        return []
    v, s = rng.choice(free), None
    w, x = rng.choice(d.endog)
    t = V(w) if abs(x) < 1e-12 else (['-', V(w), N(x)] if x >= 0 else add(V(w), N(-x)))
    kind = rng.choice(['back', 'static', 'fwd'])
    rhs = mul(N(rng.uniform(.1, .6)), t)
    if kind == 'back':
        rhs = add(mul(N(rng.uniform(.1, .8)), V(v, -1)), rhs)
    elif kind == 'fwd':
        rhs = add(mul(N(rng.uniform(.1, .8)), V(v, 1)), rhs)
    ops = [{'op': 'add_endog', 'vars': [[v, 0.]], 'how': rng.choice(['single', 'many'])}]
    fs = [n for n in STOCH if n not in d.stoch_names]
    if fs and len(d.stoch) < 4 and rng.random() < .5:
        s = rng.choice(fs)
        m = {'variance': variance(rng)}
        if d.stoch and rng.random() < .5:
            related(rng, m, *rng.choice(d.stoch))
            if not definite(Defn([], [*d.stoch, [s, m]], {}, {}, [])):
                m = {'variance': m['variance']}
        ops.append({'op': 'add_stoch', 'shocks': [[s, m]], 'how': rng.choice(['single', 'many'])})
        rhs = add(rhs, ['e', s])
    ops.append({'op': 'add_exprs', 'eqs': [[V(v), rhs]],
                'how': rng.choice(['add', 'append', 'extend', 'single', 'iadd'])})
    rng.shuffle(ops)
    return ops


def bad_op(rng, d):
    w = rng.choice(BAD)
    op = {'op': 'bad', 'what': w}
    names = list(d.params) or ['pp']
    op['name'] = rng.choice(names)
    op['name2'] = rng.choice(names + ['newp'])
    op['i'] = rng.randrange(max(1, len(d.exprs)))
    op['text'] = rng.choice(['c = * 2', 'c = 2 +', 'c = (1 + 2', 'c = 1 2', '', 'c = exp 3',
                             '= 4', 'c(+1 = 3'])
    op['order'] = rng.choice([3, -1, 7])
    if d.endog:
        op['eq'] = [V(d.endog[0][0]), N(1.)]
    else:
        op['eq'] = [N(1.), N(1.)]
    return op


# ---------------------------------------------------------------------------------
def query(rng, d, names=None):
    """a random query with its argument"""
    name = rng.choice(names or QUERY_NAMES)
    n, nu = len(d.endog), len(d.stoch)
    arg = None
    if name == 'irf':
        one = rng.randrange(max(1, nu))
        which = rng.choice([one, one, one, None, [one], [rng.randrange(max(1, nu)), one]])
        arg = [which, rng.randint(3, 8), round(rng.choice([1., .5, -1.5]), 2)]
    elif name in ('autocov', 'autocorr'):
        arg = rng.choice([1, 2, 3, 3, 4, 6])
    elif name == 'vdsel':
        some = lambda k: rng.choice([[rng.randrange(max(1, k))],
                                     [rng.randrange(max(1, k)) for _ in range(rng.choice([2, 3]))]])
        arg = rng.choice([[some(n), None], [None, some(nu)], [some(n), some(nu)]])
        if rng.random() < .3:      # a name instead of a list of names
            arg = [a if a is None else a[0] for a in arg]
    elif name == 'sim':
        T = rng.randint(2, 7)
        arg = [[round(rng.gauss(0, .5), 4) for _ in range(nu)] for _ in range(T)]
    elif name == 'steady':
        arg = [round(x + rng.uniform(-.2, .2), 4) for _, x in d.endog]
    elif name == 'dyn':
        x0 = dict(map(tuple, d.endog))
        arg = [round((x0[c[1]] if c[0] == 'v' else 0.) + rng.uniform(-.2, .2), 4)
               for c in d.incidence() if c[0] == 'e' or c[1] in x0]
    return {'q': name, 'arg': arg}


QUERY_NAMES = ['ss', 'jac', 'hess', 'sigma', 'eigen', 'first', 'cov', 'var', 'std', 'corr',
               'autocov', 'autocorr', 'vd', 'mean', 'steady', 'dyn', 'solution', 'irf', 'sim',
               'summary', 'kalman', 'state_sigma', 'types', 'ssjac', 'vdsel']
