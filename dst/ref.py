"""
The reference model: an implementation of everything pynare computes that shares no code
and, where there is a choice, no algorithm with it.

    definition     plain data (`Defn`), edited by the harness alongside the real model
    derivatives    forward-mode second-order jets           (pynare: reverse-mode autograd)
    first order    cyclic reduction on the matrix quadratic  (pynare: generalized Schur)
    second order   one vectorised linear system              (pynare: blockwise Sylvester)
    moments        vec-Lyapunov on the full state            (pynare: Bartels-Stewart)
    parameters     memoised depth-first evaluation           (pynare: iterated precedence)
    stability      eigenvalues of the full 2n companion form (pynare: reduced pencil)

It only uses numpy's dense `solve` and scipy's `eigvals`.
"""
import copy
import json
import math
import zlib

import numpy as np
from scipy.linalg import eigvals as _eigvals, ordqz as _ordqz

# ---------------------------------------------------------------------------------
# expressions are JSON: ["n", 1.5] ["p", name] ["v", name, lag] ["e", name]
#   [op, a, b] for op in + - * / ^        ["neg"|"exp"|"log"|"sqrt"|"sin", a]
BIN = ('+', '-', '*', '/', '^')
UN = ('neg', 'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'log10', 'abs',
      'sign', 'erf')


class Unresolvable(Exception):
    """a definition that has no value: unknown name, cycle"""


def fmt_num(v):
    s = f"{v:.12f}".rstrip('0')
    return s + '0' if s.endswith('.') else s


def to_text(x):
    """
    the expression in the model language: either fully parenthesised, or with no parentheses
    that the usual precedence makes unnecessary. which of them depends on the expression
    """
    style = zlib.crc32(json.dumps(x).encode()) % 4
    if style < 2:
        return _full(x)
    return _minimal(x, ' ' if style == 2 else '')[0]


def _atom(x):
    k = x[0]
    if k == 'n':
        return fmt_num(x[1]) if x[1] >= 0 else f"(-{fmt_num(-x[1])})"
    if k in ('p', 'e'):
        return x[1]
    if k == 'v':
        return x[1] if x[2] == 0 else f"{x[1]}({x[2]:+d})"
    return None


def _full(x):
    k, a = x[0], _atom(x)
    if a is not None:
        return a
    if k == 'neg':
        return f"(-({_full(x[1])}))"
    if k in UN:
        return f"{k}({_full(x[1])})"
    return f"({_full(x[1])} {k} {_full(x[2])})"


LEVEL = {'+': 1, '-': 1, '*': 2, '/': 2, 'neg': 3, '^': 4}


def _minimal(x, sp):
    """(text, binding strength)"""
    k, a = x[0], _atom(x)
    if a is not None:
        return a, 5

    def at_least(y, level):
        t, l = _minimal(y, sp)
        return t if l >= level else f"({t})"

    if k == 'neg':
        return '-' + at_least(x[1], 4), 3
    if k in UN:
        return f"{'ln' if k == 'log' and sp else k}({_minimal(x[1], sp)[0]})", 5
    n = LEVEL[k]
    left = at_least(x[1], 5 if k == '^' else n)
    right = at_least(x[2], 3 if k == '^' else n + 1)
    return f"{left}{sp}{k}{sp}{right}", n


def names_of(x, kinds=('p', 'v', 'e'), out=None):
    out = [] if out is None else out
    if x[0] in ('p', 'v', 'e'):
        if x[0] in kinds and tuple(x) not in out:
            out.append(tuple(x))
    elif x[0] != 'n':
        for a in x[1:]:
            names_of(a, kinds, out)
    return out


def value(x, env):
    """plain value. `env` maps ('p', name), ('v', name, lag), ('e', name) to floats"""
    k = x[0]
    if k == 'n':
        return float(x[1])
    if k in ('p', 'v', 'e'):
        return env[tuple(x)]
    a = value(x[1], env)
    if k in UN:
        return _unary(k, a)[0]
    b = value(x[2], env)
    if k == '+': return a + b
    if k == '-': return a - b
    if k == '*': return a * b
    if k == '/': return a / b
    return power(a, b)


def power(a, b):
    p = a ** b
    if isinstance(p, complex):
        raise ValueError('root of a negative number')
    return p


def _unary(k, a):
    if k == 'neg': return -a, -1., 0.
    if k == 'exp': e = math.exp(a); return e, e, e
    if k == 'log': return math.log(a), 1 / a, -1 / a ** 2
    if k == 'sqrt': s = math.sqrt(a); return s, .5 / s, -.25 / s ** 3
    if k == 'sin': return math.sin(a), math.cos(a), -math.sin(a)
    if k == 'cos': return math.cos(a), -math.sin(a), -math.cos(a)
    if k == 'tan': t = math.tan(a); return t, 1 + t * t, 2 * t * (1 + t * t)
    if k == 'asin': q = 1 - a * a; return math.asin(a), q ** -.5, a * q ** -1.5
    if k == 'acos': q = 1 - a * a; return math.acos(a), -q ** -.5, -a * q ** -1.5
    if k == 'atan': q = 1 + a * a; return math.atan(a), 1 / q, -2 * a / q ** 2
    if k == 'log10': c = math.log(10); return math.log10(a), 1 / (a * c), -1 / (a * a * c)
    if k == 'abs': return abs(a), math.copysign(1., a), 0.
    if k == 'sign': return (a > 0) - (a < 0.), 0., 0.
    if k == 'erf':
        e = 2 / math.sqrt(math.pi) * math.exp(-a * a)
        return math.erf(a), e, -2 * a * e
    raise KeyError(k)


def jet(x, env, pos):
    """(value, gradient, hessian) with respect to the symbols indexed by `pos`"""
    n, k = len(pos), x[0]
    if k == 'n':
        return float(x[1]), np.zeros(n), np.zeros((n, n))
    if k in ('p', 'v', 'e'):
        g = np.zeros(n)
        if tuple(x) in pos:
            g[pos[tuple(x)]] = 1.
        return env[tuple(x)], g, np.zeros((n, n))
    a, ga, ha = jet(x[1], env, pos)
    if k in UN:
        f, d, dd = _unary(k, a)
        return f, d * ga, d * ha + dd * np.outer(ga, ga)
    b, gb, hb = jet(x[2], env, pos)
    if k == '+': return a + b, ga + gb, ha + hb
    if k == '-': return a - b, ga - gb, ha - hb
    cross = np.outer(ga, gb)
    if k == '*':
        return a * b, a * gb + b * ga, a * hb + b * ha + cross + cross.T
    if k == '/':
        f = a / b
        g = (ga - f * gb) / b
        c = np.outer(g, gb)
        return f, g, (ha - f * hb - c - c.T) / b
    if not gb.any() and not hb.any():
        f = a ** b
        d = b * a ** (b - 1) if b else 0.
        dd = b * (b - 1) * a ** (b - 2) if b not in (0., 1.) else 0.
        return f, d * ga, d * ha + dd * np.outer(ga, ga)
    la = math.log(a)
    f = a ** b
    g1 = gb * la + b * ga / a
    h1 = hb * la + (np.outer(gb, ga) + np.outer(ga, gb)) / a \
        + b * (ha / a - np.outer(ga, ga) / a ** 2)
    return f, f * g1, f * (np.outer(g1, g1) + h1)


def resolve(defs, outer=None):
    """values of parameters defined by numbers or by each other"""
    outer = outer or {}
    done, active = {}, set()

    def get(name):
        if name in done:
            return done[name]
        if name not in defs:
            if name in outer:
                return outer[name]
            raise Unresolvable(name)
        if name in active:
            raise Unresolvable(f"cycle at {name}")
        active.add(name)
        d = defs[name]
        if isinstance(d, (int, float)):
            v = float(d)
        else:
            env = {('p', n[1]): get(n[1]) for n in names_of(d)}
            v = value(d, env)
        active.discard(name)
        done[name] = v
        return v

    for n in defs:
        get(n)
    return done


# ---------------------------------------------------------------------------------
class Defn:
    """a model definition as data"""

    def __init__(self, endog=(), stoch=(), params=None, locals_=None, exprs=(), name='',
                 extra=None):
        self.endog = [list(e) for e in endog]        # [name, initial]
        self.stoch = [[s[0], dict(s[1])] for s in stoch]   # [name, {variance, other, ...}]
        self.params = dict(params or {})
        self.locals = dict(locals_ or {})
        self.exprs = [list(e) for e in exprs]        # [lhs, rhs]
        self.name = name
        # what the results don't depend on: {'terminal': {name: value}, 'historical': {...},
        #   'determ': [[name, periods, values], ...]}
        self.extra = dict(extra or {})

    def copy(self):
        return Defn.load(json.loads(json.dumps(self.dump())))

    def dump(self):
        return {'endog': self.endog, 'stoch': self.stoch,
                'params': list(map(list, self.params.items())),
                'locals': list(map(list, self.locals.items())),
                'exprs': self.exprs, 'name': self.name,
                **({'extra': self.extra} if self.extra else {})}

    @classmethod
    def load(cls, d):
        d = copy.deepcopy(d)
        return cls(d['endog'], d['stoch'], dict(map(tuple, d['params'])),
                   dict(map(tuple, d['locals'])), d['exprs'], d['name'], d.get('extra'))

    def key(self):
        return json.dumps(self.dump())

    # -- names
    @property
    def endog_names(self): return [e[0] for e in self.endog]

    @property
    def stoch_names(self): return [s[0] for s in self.stoch]

    def expr_text(self, i):
        l, r = self.exprs[i]
        return expr_text(self.exprs[i])

    # -- values
    def param_values(self):
        return resolve(self.params)

    def scope(self):
        pv = self.param_values()
        lv = resolve(self.locals, pv)
        return {**pv, **lv}

    def problems(self):
        """why the definition cannot be evaluated as a model, if it can't"""
        out = []
        if len(self.exprs) != len(self.endog):
            out.append('count')
        try:
            scope = self.scope()
        except Unresolvable:
            return out + ['params']
        except (ArithmeticError, ValueError):
            return out + ['valueless']
        if len(set(self.endog_names)) != len(self.endog):
            out.append('dup')
        if len(set(self.stoch_names)) != len(self.stoch):
            out.append('dup')
        seen = set()
        for l, r in self.exprs:
            for n in names_of(l) + names_of(r):
                if n[0] == 'p' and n[1] not in scope:
                    out.append('symbol')
                elif n[0] == 'v' and n[1] not in self.endog_names:
                    out.append('symbol')
                elif n[0] == 'e' and n[1] not in self.stoch_names:
                    out.append('symbol')
                if n[0] == 'v':
                    seen.add(n[1])
                    if abs(n[2]) > 1:
                        out.append('lag')
        if any(e not in seen for e in self.endog_names):
            out.append('unused')
        if not self.endog:
            out.append('empty')
        for s, m in self.stoch:
            if m.get('other') and m['other'] not in self.stoch_names:
                out.append('other')
        return out

    def sigma(self):
        n, names = len(self.stoch), self.stoch_names
        S = np.zeros((n, n))
        for i, (s, m) in enumerate(self.stoch):
            S[i, i] = m.get('variance') or 0.
        for i, (s, m) in enumerate(self.stoch):
            if m.get('corr') is not None:
                j = names.index(m['other'])
                S[i, j] = S[j, i] = math.sqrt(S[i, i] * S[j, j]) * m['corr']
            if m.get('cov') is not None:
                j = names.index(m['other'])
                S[i, j] = S[j, i] = m['cov']
        return S

    # -- incidence
    def incidence(self):
        """list of ('v', name, lag) in jacobian column order, then ('e', name)"""
        seen = {n for l, r in self.exprs for n in names_of(l) + names_of(r)}
        cols = [('v', v, lag) for lag in (-1, 0, 1) for v in self.endog_names
                if ('v', v, lag) in seen]
        return cols + [('e', s) for s in self.stoch_names]

    def env_at(self, ss):
        scope = self.scope()
        env = {('p', k): v for k, v in scope.items()}
        for v, x in zip(self.endog_names, ss):
            for lag in (-1, 0, 1):
                env[('v', v, lag)] = float(x)
        for s in self.stoch_names:
            env[('e', s)] = 0.
        return env

    def static_residuals(self, x):
        env = self.env_at(x)
        return np.array([value(l, env) - value(r, env) for l, r in self.exprs])

    def newton_ss(self, x0, tol=1e-13, iters=60):
        """steady state by Newton's method, or None"""
        x = np.array(x0, dtype=float)
        try:
            for _ in range(iters):
                env = self.env_at(x)
                res, J = [], []
                pos = {('v', v, 0): i for i, v in enumerate(self.endog_names)}
                for l, r in self.exprs:
                    l0, r0 = _staticise(l), _staticise(r)
                    a, ga, _ = jet(l0, env, pos)
                    b, gb, _ = jet(r0, env, pos)
                    res.append(a - b)
                    J.append(ga - gb)
                res = np.array(res)
                if np.max(np.abs(res)) < tol:
                    return x
                x = x - np.linalg.solve(np.array(J), res)
                if not np.all(np.isfinite(x)):
                    return None
            return x if np.max(np.abs(self.static_residuals(x))) < 1e-9 else None
        except (ArithmeticError, ValueError, np.linalg.LinAlgError):
            return None


def expr_text(eq):
    return f"{to_text(eq[0])} = {to_text(eq[1])}"


def _staticise(x):
    if x[0] == 'v':
        return ['v', x[1], 0]
    if x[0] in ('n', 'p', 'e'):
        return x
    return [x[0]] + [_staticise(a) for a in x[1:]]


# ---------------------------------------------------------------------------------
class Linear:
    """derivatives of a definition at a point (its steady state, unless given another)"""

    def __init__(self, defn, ss):
        self.defn, self.ss = defn, np.array(ss, dtype=float)
        self.cols = defn.incidence()
        pos = {c: i for i, c in enumerate(self.cols)}
        env = defn.env_at(self.ss)
        vals, J, H = [], [], []
        for l, r in defn.exprs:
            a, ga, ha = jet(l, env, pos)
            b, gb, hb = jet(r, env, pos)
            vals.append(a - b); J.append(ga - gb); H.append(ha - hb)
        self.resid = np.array(vals)
        self.jac = np.array(J).reshape(len(J), len(self.cols))
        self.hess = np.array(H)                     # (eq, col, col)

        n, names = len(defn.endog), defn.endog_names
        m = len(defn.exprs)
        self.A = np.zeros((m, n)); self.B = np.zeros((m, n)); self.C = np.zeros((m, n))
        self.E = np.zeros((m, len(defn.stoch)))
        for c, j in pos.items():
            if c[0] == 'v':
                M = {1: self.A, 0: self.B, -1: self.C}[c[2]]
                M[:, names.index(c[1])] = self.jac[:, j]
            else:
                self.E[:, defn.stoch_names.index(c[1])] = self.jac[:, j]
        self.n = n
        self.state = [i for i, v in enumerate(names) if ('v', v, -1) in pos]
        self.forward = [i for i, v in enumerate(names) if ('v', v, 1) in pos]

    # -- stability
    def roots(self):
        """moduli of all 2n generalized eigenvalues of the companion form"""
        n = self.n
        L = np.block([[np.zeros((n, n)), np.eye(n)], [-self.C, -self.B]])
        R = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), self.A]])
        w = _eigvals(L, R, homogeneous_eigvals=True)
        al, be = np.abs(w[0]), np.abs(w[1])
        scale = np.max(np.abs(np.concatenate((L.ravel(), R.ravel())))) or 1.
        out = []
        for a, b in zip(al, be):
            if a < 1e-9 * scale and b < 1e-9 * scale:
                return None                          # singular pencil
            out.append(np.inf if b < 1e-10 * max(a, 1e-300) else a / b)
        return np.sort(out)

    def verdict(self, margin=.02):
        """'unique' | 'none' (explosive) | 'many' (indeterminate) | None if too close"""
        r = self.roots()
        if r is None or np.any(np.abs(r - 1) < margin):
            return None
        stable = int(np.sum(r < 1))
        if stable == self.n:
            return 'unique'
        return 'none' if stable < self.n else 'many'

    def standing(self, margin=.01):
        """'unique' | 'none' | 'many' | 'rank' | 'singular' | None if it's too close to call"""
        n = self.n
        size = max(np.abs(M).max(initial=0) for M in (self.A, self.B, self.C))
        if not n or not size or not np.isfinite(size) or self.A.shape != (n, n):
            return None
        low = min(np.linalg.svd(self.A * z * z + self.B * z + self.C, compute_uv=False)[-1] / size
                  for z in (.61 + .93j, -1.21 + .37j))
        if low < 1e-11:
            return 'singular'
        if low < 1e-5:
            return None
        by_count = self.verdict(margin)
        if by_count != 'unique':
            return by_count
        L = np.block([[np.zeros((n, n)), np.eye(n)], [-self.C, -self.B]])
        R = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), self.A]])
        try:
            Z = _ordqz(L, R, sort='iuc', output='complex')[5]
        except ValueError:
            return None
        low = np.linalg.svd(Z[:n, :n], compute_uv=False)[-1]
        return 'rank' if low < 1e-12 else 'unique' if low > 1e-4 else None

    # -- first order
    def first_order(self):
        """(G, H): y_t = G y_{t-1} + H u_t in deviations, declaration order; or None"""
        n = self.n
        A0, A1, A2 = self.C.copy(), self.B.copy(), self.A.copy()
        G = None
        try:
            # cyclic reduction for A2 G^2 + A1 G + A0 = 0
            hat, a0, a1, a2 = A1.copy(), A0.copy(), A1.copy(), A2.copy()
            for _ in range(60):
                i0 = np.linalg.solve(a1, a0)
                i2 = np.linalg.solve(a1, a2)
                hat = hat - a2 @ i0
                a1 = a1 - a0 @ i2 - a2 @ i0
                a0, a2 = -a0 @ i0, -a2 @ i2
                if max(np.abs(a0).max(), np.abs(a2).max()) < 1e-30:
                    break
                if not np.isfinite(a1).all():
                    raise np.linalg.LinAlgError
            G = -np.linalg.solve(hat, A0)
        except np.linalg.LinAlgError:
            G = None
        if G is None or not self._ok(G):
            G = np.zeros((n, n))
            try:
                for _ in range(20000):
                    Gn = -np.linalg.solve(A2 @ G + A1, A0)
                    if np.max(np.abs(Gn - G)) < 1e-15:
                        G = Gn
                        break
                    G = Gn
            except np.linalg.LinAlgError:
                return None
        for _ in range(3):
            # fixed-point polishing
            try:
                G = -np.linalg.solve(A2 @ G + A1, A0)
            except np.linalg.LinAlgError:
                return None
        if not self._ok(G):
            return None
        H = -np.linalg.solve(A2 @ G + A1, self.E)
        return G, H

    def _ok(self, G):
        if not np.isfinite(G).all():
            return False
        scale = 1 + max(np.abs(self.A).max(), np.abs(self.B).max(), np.abs(self.C).max())
        res = self.A @ G @ G + self.B @ G + self.C
        return np.abs(res).max() < 1e-8 * scale * (1 + np.abs(G).max()) ** 2 \
            and np.max(np.abs(np.linalg.eigvals(G)), initial=0) < 1

    # -- second order
    def second_order(self, G, H, Sigma):
        """(Gyy, Gyu, Guu, Gss): full second derivatives, declaration order"""
        n, st = self.n, self.state
        ns, nu = len(st), H.shape[1]
        names, snames = self.defn.endog_names, self.defn.stoch_names
        Gs = G[:, st]
        # derivatives of every jacobian column's symbol w.r.t. s = (states, shocks)
        gs = np.hstack((Gs, H))                       # y_t
        gp = np.hstack((G @ Gs, G @ H))               # y_{t+1} (expected)
        V = np.zeros((len(self.cols), ns + nu))
        Vp = np.zeros((len(self.cols), nu))           # w.r.t. next period's shocks
        for i, c in enumerate(self.cols):
            if c[0] == 'v':
                k = names.index(c[1])
                if c[2] == 1:
                    V[i] = gp[k]; Vp[i] = H[k]
                elif c[2] == 0:
                    V[i] = gs[k]
                else:
                    V[i, st.index(k)] = 1.
            else:
                V[i, ns + snames.index(c[1])] = 1.
        m = self.hess.shape[0]
        Q = np.einsum('mab,ai,bj->mij', self.hess, V, V)     # f_vv (V x V)
        M1 = self.A @ G + self.B
        S = G[np.ix_(st, st)] if ns else np.zeros((0, 0))    # state to state
        R = H[st, :] if ns else np.zeros((0, nu))            # shock to state
        if ns:
            Qxx = Q[:, :ns, :ns].reshape(m, ns * ns)
            K = np.kron(S, S)
            big = np.kron(M1, np.eye(ns * ns)) + np.kron(self.A, K.T)
            gxx = np.linalg.solve(big, -Qxx.reshape(-1)).reshape(n, ns * ns)
            T = gxx.reshape(n, ns, ns)
            Axu = np.einsum('nij,ik,jl->nkl', T, S, R)
            rhs = Q[:, :ns, ns:].reshape(m, -1) + self.A @ Axu.reshape(n, -1)
            gxu = -np.linalg.solve(M1, rhs)
            Auu = np.einsum('nij,ik,jl->nkl', T, R, R).reshape(n, -1)
        else:
            gxx = np.zeros((n, 0)); gxu = np.zeros((n, 0)); Auu = np.zeros((n, nu * nu))
        rhs = Q[:, ns:, ns:].reshape(m, -1) + self.A @ Auu
        guu = -np.linalg.solve(M1, rhs)
        Qp = np.einsum('mab,ai,bj->mij', self.hess, Vp, Vp).reshape(m, -1)
        vs = Sigma.reshape(-1)
        rhs = (Qp + self.A @ guu) @ vs
        gss = -np.linalg.solve(self.A @ (G + np.eye(n)) + self.B, rhs)
        return gxx, gxu, guu, gss


def lyapunov(G, Q):
    n = G.shape[0]
    if not n:
        return np.zeros((0, 0))
    return np.linalg.solve(np.eye(n * n) - np.kron(G, G), Q.reshape(-1)).reshape(n, n)


class Solved:
    """everything a uniquely solvable definition implies, computed lazily"""

    def __init__(self, defn, ss):
        self.defn, self.ss = defn, np.array(ss, dtype=float)
        self.lin = Linear(defn, ss)
        self.Sigma = defn.sigma()
        self._memo = {}

    def _get(self, k, f):
        if k not in self._memo:
            self._memo[k] = f()
        return self._memo[k]

    @property
    def verdict(self):
        return self._get('verdict', self.lin.verdict)

    @property
    def first(self):
        return self._get('first', self.lin.first_order)

    @property
    def second(self):
        return self._get('second', lambda: self.lin.second_order(*self.first, self.Sigma))

    @property
    def cov(self):
        G, H = self.first
        return self._get('cov', lambda: lyapunov(G, H @ self.Sigma @ H.T))

    def autocov(self, p):
        G, _ = self.first
        out, M = [], self.cov
        for _ in range(p):
            M = G @ M
            out.append(M)
        return np.array(out)

    def mean(self, order):
        if order == 1:
            return self.ss
        G, H = self.first
        gxx, gxu, guu, gss = self.second
        st = self.lin.state
        c = .5 * (gss + guu @ self.Sigma.reshape(-1))
        if st:
            c = c + .5 * gxx @ self.cov[np.ix_(st, st)].reshape(-1)
        return self.ss + np.linalg.solve(np.eye(self.lin.n) - G, c)

    def var_decomp(self):
        G, H = self.first
        nu = H.shape[1]
        if nu == 1:
            return np.ones((self.lin.n, 1))
        P = self.Sigma + 1e-12 * np.eye(nu)
        L = np.zeros((nu, nu))                       # Cholesky-Banachiewicz
        for i in range(nu):
            for j in range(i + 1):
                s = P[i, j] - L[i, :j] @ L[j, :j]
                L[i, j] = math.sqrt(s) if i == j else s / L[j, j]
        out = np.empty((self.lin.n, nu))
        for k in range(nu):
            h = H @ L[:, [k]]
            out[:, k] = np.abs(np.diag(lyapunov(G, h @ h.T)))
        with np.errstate(all='ignore'):
            return out / out.sum(axis=1)[:, None]

    def step(self, order, y, u):
        """one period of the decision rule, in levels"""
        G, H = self.first
        x = np.asarray(y) - self.ss
        out = self.ss + G @ x + H @ u
        if order == 2:
            gxx, gxu, guu, gss = self.second
            st = self.lin.state
            xs = x[st]
            out = out + .5 * gss + .5 * guu @ np.kron(u, u)
            if st:
                out = out + .5 * gxx @ np.kron(xs, xs) + gxu @ np.kron(xs, u)
        return out

    def path(self, order, innovs, init=None):
        """paths[0] = init; innovation t-1 moves the economy from t-1 to t"""
        y = np.array(self.ss if init is None else init, dtype=float)
        out = [y]
        for t in range(1, len(innovs)):
            y = self.step(order, y, innovs[t - 1])
            out.append(y)
        return np.array(out)
