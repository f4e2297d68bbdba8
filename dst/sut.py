"""
The real code: building pynare models from a definition, asking them for results, and
comparing those with what the reference says the definition implies.

Everything is expressed in declaration order and plain arrays, through public attributes.
"""
import zlib

import numpy as np

from . import ref

TOL = 1e-7


class Mismatch(Exception):
    """a reported result is not the one the definition implies"""


def pn():
    import pynare
    return pynare


# ---------------------------------------------------------------------------------
# construction
def param_arg(d):
    return float(d) if isinstance(d, (int, float)) else ref.to_text(d)


def model_kwargs(defn):
    kw = dict(
        endog=list(defn.endog_names),
        stoch=list(defn.stoch_names),
        params={k: param_arg(d) for k, d in defn.params.items()},
        shocks=given_moments(defn.stoch),
        exprs=[ref.expr_text(e) for e in defn.exprs],
        initial={n: x for n, x in defn.endog},
        name=defn.name,
    )
    for k in ('terminal', 'historical'):
        if defn.extra.get(k):
            kw[k] = dict(defn.extra[k])
    if defn.extra.get('determ'):
        kw['determ'] = [d[0] for d in defn.extra['determ']]
        for n, p, v in defn.extra['determ']:
            if p is not None:
                kw['shocks'][n] = {'periods': list(p), 'values': list(v)}
    return kw


def given_moments(stoch):
    """where nothing is said about a shock, its variance is one"""
    return {s: dict(m) for s, m in stoch if not plain(m)}


def plain(m):
    return list(m) == ['variance'] and isinstance(m['variance'], float) and m['variance'] == 1.


def build(defn):
    kw = model_kwargs(defn)
    if defn.locals:
        kw['local_params'] = {k: param_arg(d) for k, d in defn.locals.items()}
    return pn().Model(**kw)


COMMENTED, SEARCHED, TAGGED, HOMOGENEOUS, STDERR, SPACED = 1, 2, 4, 8, 16, 32


def any_style(defn):
    """some way of writing the definition, always the same one"""
    h = zlib.crc32(defn.key().encode())
    return 0 if h % 3 == 0 else (h >> 4) & ~SEARCHED & 63


def mod_text(defn, style=0):
    """the definition as the text of a model file"""
    out = []
    comma = ' ' if style & SPACED else ', '
    if style & 1:
        out.append("// a model\n/* written by the simulator\n over two lines */\n\n")
    out.append("var " + comma.join(defn.endog_names) + ";\n")
    if defn.stoch:
        out.append("varexo " + comma.join(defn.stoch_names) + ";\n")
    for n, _, _ in defn.extra.get('determ', ()):
        out.append(f"varexo_det {n};\n")
    if defn.params:
        out.append("parameters " + comma.join(defn.params) + ";\n\n")
    for k, d in in_order(defn.params):
        v = ref.fmt_num(d) if isinstance(d, (int, float)) and d >= 0 else \
            (f"-{ref.fmt_num(-d)}" if isinstance(d, (int, float)) else ref.to_text(d))
        out.append(f"{k} = {v};\n")
    out.append("\nmodel;\n")
    for k, d in defn.locals.items():
        out.append(f"#{k} = {ref.to_text(d) if not isinstance(d, (int, float)) else ref.fmt_num(d)};\n")
    for i, e in enumerate(defn.exprs):
        tag = f"[name='eq {i}'] " if style & TAGGED and i % 2 == 0 else ''
        if style & HOMOGENEOUS and i % 3 < 2:
            out.append(f"    {tag}{ref.to_text(['-', *e])};\n")
        else:
            out.append(f"    {tag}{ref.expr_text(e)};\n")
    out.append("end;\n\ninitval;\n")
    for n, x in defn.endog:
        v = ref.fmt_num(x) if x >= 0 else f"-{ref.fmt_num(-x)}"
        out.append(f"    {n} = {v};\n")
    for block, k in (('endval', 'terminal'), ('histval', 'historical')):
        if defn.extra.get(k):
            out.append(f"end;\n\n{block};\n")
            for n, x in defn.extra[k].items():
                out.append(f"    {n} = {_signed(x)};\n")
    out.append("end;\n\nshocks;\n")
    for s, m in defn.stoch:
        if plain(m):
            continue
        if style & STDERR:
            out.append(f"    var {s}; stderr {ref.fmt_num(m['variance'])} ^ .5;\n")
        else:
            out.append(f"    var {s} = {ref.fmt_num(m['variance'])};\n")
    for s, m in defn.stoch:
        if m.get('corr') is not None:
            out.append(f"    corr {s}, {m['other']} = {_signed(m['corr'])};\n")
        if m.get('cov') is not None:
            out.append(f"    var {s}, {m['other']} = {_signed(m['cov'])};\n")
    out.append("end;\n")
    if style & 2:
        out.append("\nsteady;\n")
    return ''.join(out)


def in_order(defs):
    """(name, definition) pairs, each after those it's defined through"""
    out, left = [], dict(defs)
    while left:
        ready = [k for k, d in left.items() if isinstance(d, (int, float)) or
                 not any(n[1] in left for n in ref.names_of(d))]
        if not ready:
            return list(defs.items())
        out += [(k, left.pop(k)) for k in ready]
    return out


def _signed(v):
    return ref.fmt_num(v) if v >= 0 else f"-{ref.fmt_num(-v)}"


# ---------------------------------------------------------------------------------
# canonical forms of what a model reports
def gy_gu(m, sol):
    """declaration-order (n, n) and (n, n_exog) decision rules"""
    idx = m.indexes
    n = len(m.endog)
    st = list(idx.dr_order[idx.dr.state])
    dc = idx.dc_order
    gy = np.reshape(np.asarray(sol.gy), (n, -1))[dc]
    gu = np.reshape(np.asarray(sol.gu), (n, -1))[dc]
    G = np.zeros((n, n))
    if gy.shape[1]:
        G[:, st] = gy
    return G, gu


def second_arrays(m, sol):
    """(gxx, gxu, guu, gss) as full second derivatives: declaration-order rows, states in
    declaration order"""
    idx = m.indexes
    n, ne = len(m.endog), len(m.stoch)
    dr_st = list(idx.dr_order[idx.dr.state])
    dc = idx.dc_order
    ns = len(dr_st)
    perm = np.argsort(dr_st)
    gxx = np.reshape(np.asarray(sol.ghxx), (n, ns, ns))[dc][:, perm][:, :, perm]
    gxu = np.reshape(np.asarray(sol.ghxu), (n, ns, ne))[dc][:, perm]
    guu = np.reshape(np.asarray(sol.ghuu), (n, ne, ne))[dc]
    d2 = np.reshape(np.asarray(sol.del2), (n,))[dc]
    return 2 * gxx.reshape(n, -1), gxu.reshape(n, -1), 2 * guu.reshape(n, -1), 2 * d2


def close(got, want, tol=TOL):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    if got.size == 0:
        return True
    nan_g, nan_w = np.isnan(got), np.isnan(want)
    if (nan_g != nan_w).any():
        return False
    inf = np.isinf(want) | np.isinf(got)
    if not np.array_equal(got[inf], want[inf], equal_nan=True):
        return False
    ok = ~nan_w & ~inf
    scale = 1 + np.max(np.abs(want[ok]), initial=0)
    return bool(np.all(np.abs(got[ok] - want[ok]) <= tol * scale))


def expect(what, got, want, tol=TOL):
    if not close(got, want, tol):
        raise Mismatch(f"{what}: reported {brief(got)}, the definition implies {brief(want)}")


def brief(a):
    a = np.asarray(a)
    if a.dtype == object:
        return str(a)
    s = np.array2string(a.ravel()[:8], precision=6, suppress_small=False, separator=',')
    return f"{a.shape}{s}".replace('\n', '')


def brief_any(a):
    try:
        return brief(a)
    except (ValueError, TypeError):
        return str(a)[:120]


# ---------------------------------------------------------------------------------
# queries. each returns the canonical numbers a model reports
def q_ss(m, a): return np.array(m.ss.values)
def q_jac(m, a): return np.array(m.jacobian.array)
def q_hess(m, a): return np.array(m.hessian.array)
def q_sigma(m, a): return np.array(m.sigma)
def q_eigen(m, a): return np.array(m.statespace.eigen)
def q_first(m, a): return np.hstack(gy_gu(m, m.first_order_solution))
def q_cov(m, a): return np.array(m.stats.cov())
def q_var(m, a): return np.array(m.stats.var())
def q_std(m, a): return np.array(m.stats.std())
def q_corr(m, a): return np.array(m.stats.corr())
def q_autocov(m, a): return np.array(m.stats.autocov(p=a or 3))
def q_autocorr(m, a): return np.array(m.stats.autocorr(p=a or 3))
def q_vd(m, a): return np.array(m.stats.var_decomp())


def named(names, a):
    if a is None:
        return None
    return [str(names[i]) for i in a] if isinstance(a, list) else str(names[a])


def q_vdsel(m, a):
    kw = {k: named(getattr(m, k).names, x) for k, x in zip(('endog', 'stoch'), a) if x is not None}
    return np.array(m.stats.var_decomp(**kw))


def q_mean(m, a): return np.array(m.stats.mean())
def q_steady(m, a): return np.array(m.steady_repr(np.asarray(a, dtype=float)))
def q_dyn(m, a): return np.array(m.dynamic_repr(np.asarray(a, dtype=float)))
def q_kalman(m, a): return [np.array(x) for x in m.statespace.kalman_transition]
def q_state_sigma(m, a): return np.array(m.statespace.sigma)


def q_ssjac(m, a): return np.array(m.ss.jacobian.array)


TYPES = ('state', 'forward', 'backward', 'mixed', 'pure_forward', 'pure_backward', 'static')


def q_types(m, a):
    return [[str(v.name) for v in getattr(m, k + '_vars')] for k in TYPES]


def q_solution(m, a):
    sol = m.solution
    if sol.order == 1:
        return [1, *gy_gu(m, sol)]
    return [2, *second_arrays(m, sol), *gy_gu(m, sol.lower_solution)]


def q_irf(m, a):
    k, periods, size = a
    return np.array(m.impulse_response(named(m.stoch.names, k), periods=periods, size=size).impulse)


def q_sim(m, a):
    return np.array(m.simulate(shocks=np.asarray(a, dtype=float)).paths)


def q_summary(m, a):
    return [str(m.summary()), str(m.solution.summary()), str(m.stats.summary())]


QUERIES = {k[2:]: f for k, f in list(globals().items()) if k.startswith('q_')}

# queries that need a uniquely determined stable solution
NEEDS_SOLUTION = {'first', 'cov', 'var', 'std', 'corr', 'autocov', 'autocorr', 'vd', 'mean',
                  'solution', 'irf', 'sim', 'summary', 'kalman', 'state_sigma', 'vdsel'}
NEEDS_SIGMA_PD = {'irf', 'sim'}


def nontrivial(S):
    return S.size and np.linalg.eigvalsh(S)[0] > 1e-9


def check(name, arg, got, solved, order, where=''):
    """
    compare what was reported with what the definition implies. `solved` is the reference
    for the definition in force and `order` the approximation in force
    """
    d, lin = solved.defn, solved.lin
    w = f"{where}{name}"
    if name == 'ss':
        expect(w, got, solved.ss)
    elif name == 'jac':
        expect(w, got, lin.jac)
    elif name == 'hess':
        expect(w, got, lin.hess.reshape(lin.hess.shape[0], -1))
    elif name == 'sigma':
        expect(w, got, solved.Sigma)
    elif name == 'eigen':
        check_eigen(w, got, lin)
    elif name == 'steady':
        expect(w, got, d.static_residuals(arg))
    elif name == 'dyn':
        expect(w, got, dyn_residuals(d, arg))
    elif name == 'ssjac':
        expect(w, got, lin.A + lin.B + lin.C)
    elif name == 'types':
        st, fw = set(lin.state), set(lin.forward)
        every = set(range(lin.n))
        want = (st, fw, st, st & fw, fw - st, st - fw, every - st - fw)
        for k, g_, w_ in zip(TYPES, got, want):
            w_ = [d.endog_names[i] for i in sorted(w_)]
            if sorted(g_) != sorted(w_):
                raise Mismatch(f"{w}: {k} variables {g_}, the definition implies {w_}")
    elif name == 'summary':
        if not all(isinstance(s, str) for s in got):
            raise Mismatch(f"{w}: not text")
    else:
        G, H = solved.first
        if name == 'first':
            expect(w, got, np.hstack((G, H)))
        elif name == 'kalman':
            pass   # state ordering is internal; exercised, judged through moments
        elif name == 'state_sigma':
            got_diag = np.sort(np.diag(got))
            expect(w, got_diag, np.sort(np.diag(solved.cov)[lin.state]), 1e-6)
        elif name == 'solution':
            if got[0] != order:
                raise Mismatch(f"{w}: order {got[0]} reported, order {order} is in force")
            if order == 1:
                expect(w + '.gy', got[1], G); expect(w + '.gu', got[2], H)
            else:
                expect(w + '.lower.gy', got[5], G); expect(w + '.lower.gu', got[6], H)
                want = solved.second
                for nm, g_, w_ in zip(('ghxx', 'ghxu', 'ghuu', 'del2'), got[1:5], want):
                    expect(f"{w}.{nm}", g_, w_, 1e-6)
        elif name == 'cov':
            expect(w, got, solved.cov, 1e-6)
        elif name == 'var':
            expect(w, got, np.diag(solved.cov), 1e-6)
        elif name == 'std':
            # the root of a variance of nothing, up to rounding of either sign, may be nan
            var = np.diag(solved.cov)
            nothing = np.isnan(got) & (var < 1e-9) if np.shape(got) == var.shape else False
            expect(w, np.where(nothing, 0., got ** 2), np.where(nothing, 0., var), 1e-6)
        elif name == 'corr':
            check_scaled(w, got, solved.cov, solved.cov)
        elif name == 'autocov':
            expect(w, got, solved.autocov(arg or 3), 1e-6)
        elif name == 'autocorr':
            want = solved.autocov(arg or 3)
            if len(got) != len(want):
                raise Mismatch(f"{w}: {len(got)} lags instead of {len(want)}")
            for g_, a_ in zip(got, want):
                check_scaled(w, g_, a_, solved.cov)
        elif name == 'vd':
            check_vd(w, got, solved)
        elif name == 'vdsel':
            check_vd(w, got, solved, *[x if isinstance(x, list) or x is None else [x] for x in arg])
        elif name == 'mean':
            expect(w, got, solved.mean(order), 1e-6)
        elif name == 'irf':
            k, periods, size = arg
            nu = len(d.stoch)
            z = np.zeros((periods, nu))
            z[0, 0 if k is None else k] = size
            expect(w, got, solved.path(order, z @ chol_upper(solved.Sigma)) - solved.ss, 1e-6)
        elif name == 'sim':
            z = np.asarray(arg, dtype=float)
            want = solved.path(order, z @ chol_upper(solved.Sigma))
            if np.isfinite(want).all() and np.abs(want).max() < 1e6:
                expect(w, got, want, 1e-6)
        else:
            raise KeyError(name)


def chol_upper(S):
    return np.linalg.cholesky(S).T


def check_scaled(w, got, num, cov):
    """correlations: only where both variances are not negligible"""
    sd = np.sqrt(np.maximum(np.diag(cov), 0))
    big = sd > 1e-5
    if big.any():
        ix = np.ix_(big, big)
        want = num[ix] / np.outer(sd[big], sd[big])
        expect(w, np.asarray(got)[ix], want, 1e-4)
    if np.asarray(got).shape != num.shape:
        raise Mismatch(f"{w}: shape {np.asarray(got).shape}")


def check_vd(w, got, solved, endog=None, stoch=None):
    want, var = solved.var_decomp(), np.diag(solved.cov)
    if endog is not None:
        want, var = want[endog], var[endog]
    if stoch is not None and len(solved.Sigma) > 1:      # all of it, if there is only one shock
        want = want[:, stoch]
    if np.asarray(got).shape != want.shape:
        raise Mismatch(f"{w}: shape {np.asarray(got).shape}, want {want.shape}")
    big = var > 1e-7
    expect(w, got[big], want[big], 1e-4)


def check_eigen(w, got, lin):
    lo, hi = 2e-2, 50.
    want = lin.roots()
    if want is None:
        return
    g = np.sort(np.abs(got[np.isfinite(got)]))
    edge = lambda v: np.any((v > lo / 4) & (v < lo * 4)) or np.any((v > hi / 4) & (v < hi * 4))
    wf = want[np.isfinite(want)]
    if edge(g) or edge(wf):
        return
    g, wf = g[(g > lo) & (g < hi)], wf[(wf > lo) & (wf < hi)]
    if len(g) != len(wf):
        raise Mismatch(f"{w}: reported moduli {brief(g)}, the definition implies {brief(wf)}")
    expect(w, g, wf, 1e-3)


def dyn_residuals(defn, point):
    cols = defn.incidence()
    env = {('p', k): v for k, v in defn.scope().items()}
    for s in defn.stoch_names:
        env[('e', s)] = 0.
    env.update({c: float(x) for c, x in zip(cols, point)})
    return np.array([ref.value(l, env) - ref.value(r, env) for l, r in defn.exprs])


# ---------------------------------------------------------------------------------
def describe(m):
    """what a model says its definition is, comparable with `Defn`"""
    return {
        'endog': [str(x) for x in m.endog.names],
        'initial': [None if e.initial is None else float(e.initial) for e in m.endog],
        'stoch': [str(x) for x in m.stoch.names],
        'moments': [[s.variance, s.other or None, s.corr, s.cov] for s in m.stoch],
        'params': {str(k): float(v) for k, v in m.params.items()},
        'locals': {str(k): float(v) for k, v in m.local_params.items()},
        'n_exprs': len(m.exprs),
        'terminal': [None if e.terminal is None else float(e.terminal) for e in m.endog],
        'historical': [None if e.historical is None else float(e.historical) for e in m.endog],
        'determ': [[str(d.name), np.asarray(d.periods, float).tolist(),
                    np.asarray(d.values, float).tolist()] for d in m.determ],
        'exog': [str(x.name) for x in m.exog],
        'start': [float(x) for x in m.initial],
    }


def defn_description(defn):
    return {
        'endog': defn.endog_names,
        'initial': [float(x) for _, x in defn.endog],
        'stoch': defn.stoch_names,
        'moments': [[m.get('variance'), m.get('other') or None, m.get('corr'), m.get('cov')]
                    for _, m in defn.stoch],
        'params': defn.param_values(),
        'locals': {k: defn.scope()[k] for k in defn.locals},
        'n_exprs': len(defn.exprs),
        **{k: [defn.extra.get(k, {}).get(n) for n in defn.endog_names]
           for k in ('terminal', 'historical')},
        # where nothing is said about it, a value of one in period zero
        'determ': [[n, 0. if p is None else [float(x) for x in p],
                    1. if v is None else [float(x) for x in v]]
                   for n, p, v in defn.extra.get('determ', ())],
        'exog': defn.stoch_names + [v[0] for v in defn.extra.get('determ', ())],
        'start': [float(x) for _, x in defn.endog],
    }
