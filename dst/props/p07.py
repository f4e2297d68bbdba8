"""P07: damaged model text is always answered in bounded time and leaves nothing behind"""
import json
import os
import re
import shutil
import tempfile

import numpy as np

from .. import boot, faults, gen, sut
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import outcome, shrink_list

LEVEL = 'exploration'
COUNTS = {'quick': 800, 'thorough': 7000}
LIMIT = 90.
TIME_UNIT = 'characters of text read'
STATE_MEASURE = 'outcomes (kind of damage, error type, message without names and numbers)'
RULE = ('One run is a seeded sequence of texts - whole models, bundled examples of every dialect '
        'and damaged versions of them (truncated at any byte, bytes lost, duplicated, transposed, '
        'flipped, foreign tokens, unterminated comments and strings, deep nesting, garbage) - '
        'loaded from memory or from a file, and of damaged expressions evaluated, in one process, '
        'some loads interrupted. Reading takes at most a fixed number of interpreter lines per '
        'character, loading a bounded number; each outcome (model, values of its equations, error '
        'type, message, position) equals the one in a process that has loaded nothing before. '
        'Non-trivial: at least one damaged text was read.')
REAL = ['all of pynare', 'python', 'the file system (a scratch directory)']
STUB = ['none; the interpreter steps are counted and interrupted through a trace function']
ASSUMPTIONS = ['texts of at most a few thousand characters',
               'loops inside the interpreter itself (regular expressions) are bounded by wall '
               'clock only, after repetition alone and with three times the limit']

READ_STEPS = (20_000, 400)            # a + b * characters; about 80 per character are usual
LOAD_STEPS = (2_000_000, 4_000)       # includes building the model and `steady` commands

TOKENS = [';', ',', '(', ')', '=', '==', '#', '@', '@#define', '@#', "'", '"', '/*', '*/', '//',
          '%', '^', '**', '-', '--', '+', '*', '/', '.', '..', '...', '1e999', '1e', '.5.', '0x1',
          'model', 'end', 'end;', 'model;', 'initval;', 'shocks;', 'var', 'varexo', 'parameters',
          'steady;', 'simul;', 'stoch_simul(order=1);', 'check;', 'corr', 'stderr', 'periods',
          'values', '1:4', 'exp(', 'log', 'max(', 'sqrt()', '[', ']', '{', '}', '<', '>=', '!',
          '&', '|', '\\', '$', '~', '?', '_', '\t', '\r', '\n', '\x00', '\ufeff', 'é', '日', 'a',
          '1', '(+1)', '(-1)', '(+2)', '( )', 'endval;', 'histval;', 'predetermined_variables',
          'model(linear);', '[name=', 'nan', 'inf', 'e', 'E', '1E+', 'ln', 'STEADY_STATE(',
          'external_function', 'model_local_variable', 'on', 'resid;', 'forecast;', 'options_.x=1;']
DAMAGE = ['truncate', 'truncate', 'truncate', 'lose', 'dup', 'swap', 'flip', 'flip', 'token',
          'token', 'drop-token', 'drop-line', 'dup-line', 'swap-lines', 'open-comment',
          'open-string', 'nest', 'concat', 'repeat', 'chop-head', 'case']


def examples():
    root = os.path.join(boot.REPO, 'pynare', 'examples')
    out = {}
    for dp, dn, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(('.mod', '.txt', '.m')):
                with open(os.path.join(dp, f), encoding='latin-1') as h:
                    out[os.path.relpath(os.path.join(dp, f), root)] = h.read()
    return out


def damage(rng, text, kind, other):
    b = text.encode('utf-8')
    n = len(b)
    if not n and kind not in ('token', 'nest', 'concat'):
        return text
    i, j = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
    k = rng.choice([1, 1, 2, 5, 20, 100])
    if kind == 'truncate':
        b = b[:i if rng.random() < .5 else j]
    elif kind == 'chop-head':
        b = b[i:]
    elif kind == 'lose':
        b = b[:i] + b[i + k:]
    elif kind == 'dup':
        b = b[:i] + b[i:i + k] + b[i:]
    elif kind == 'swap':
        u, v = b[i:i + k], b[j:j + k]
        if i + k <= j:
            b = b[:i] + v + b[i + k:j] + u + b[j + k:]
    elif kind == 'flip':
        i = min(i, n - 1)
        b = b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
    elif kind == 'case':
        b = b[:i] + b[i:j].swapcase() + b[j:]
    else:
        return damage_text(rng, text, kind, other)
    return b.decode('utf-8', 'surrogateescape').encode('utf-8', 'surrogateescape')\
        .decode('latin-1') if not ok_utf8(b) else b.decode('utf-8')


def ok_utf8(b):
    try:
        b.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def damage_text(rng, t, kind, other):
    n = len(t)
    i = rng.randrange(n + 1)
    if kind == 'token':
        return t[:i] + ' ' * rng.randrange(2) + rng.choice(TOKENS) + ' ' * rng.randrange(2) + t[i:]
    if kind == 'drop-token':
        ws = list(re.finditer(r'\w+|[^\w\s]', t))
        m = rng.choice(ws) if ws else None
        return t if m is None else t[:m.start()] + t[m.end():]
    if kind in ('drop-line', 'dup-line', 'swap-lines'):
        ls = t.split('\n')
        a, b = rng.randrange(len(ls)), rng.randrange(len(ls))
        if kind == 'drop-line':
            del ls[a]
        elif kind == 'dup-line':
            ls.insert(b, ls[a])
        else:
            ls[a], ls[b] = ls[b], ls[a]
        return '\n'.join(ls)
    if kind == 'open-comment':
        return t[:i] + rng.choice(['/*', '/* *', '/*/', '//', '/', '%', '/**']) + t[i:]
    if kind == 'open-string':
        return t[:i] + rng.choice('\'"') + t[i:]
    if kind == 'nest':
        d = rng.choice([3, 20, 60, 120, 300])
        o, c = rng.choice([('(', ')'), ('exp(', ')'), ('-', ''), ('+', ''), ('(-', ')'),
                           ('max(1,', ')'), ('2^', ''), ('(', ''), ('', ')'), ('1+', ''),
                           ('y(', ')'), ('1^(', ')'), ('/*', ''), ('#', ''), ('1/', ''),
                           ('(1<', ')')])
        eq = [m.end() for m in re.finditer('=', t)]
        i = rng.choice(eq) if eq and rng.random() < .8 else i
        return t[:i] + o * d + rng.choice(['1', '', 'y', 'alpha']) + c * d + t[i:]
    if kind == 'concat':
        return t + other if rng.random() < .5 else t[:i] + other
    if kind == 'repeat':
        return t * 2 if n < 1500 else t + t[:i]
    return t


def garbage(rng, words):
    u = rng.random()
    if u < .15:
        return rng.choice(['', ' ', '\n\n\n', ';', ';;;;', '/*', '//', '"', "'", '\x00', '%', '/',
                           '*/', 'model;', 'end;', 'var', 'var ;', 'model; end;', '\ufeff', '.',
                           '@', '1', 'x', 'x=', '=', 'x=;', '\r', '/* */', '//\n'])
    if u < .55:
        return rng.choice(['', ' ', '\n']).join(rng.choice(TOKENS + words)
                                                for _ in range(rng.choice([3, 10, 40, 150])))
    n = rng.choice([1, 5, 30, 200, 1000])
    return bytes(rng.randrange(256) for _ in range(n)).decode('latin-1')


EXPRS = ['1', 'a', 'a + b * 2', '(a - 1) ^ 2 / b', 'exp(a) + log(b)', '-a', 'max(a, b)',
         'a < b', '2 ^ 3 ^ 2', 'sqrt(a) >= 1', 'normcdf(a)', 'a * (b + (1 - a) / 3)', '1e-3 + .5',
         'a == b', '-(-(a))', 'a > .1', 'min(a, 2) * abs(b)', 'sin(a) + cos(b)', 'b ^ -1']


# statements and blocks of the grammar that hardly any model file has
RICH = ["""var y, x; varexo e; varexo_det d, f;
parameters a b; a = .5; b = (a + 1) / 2;
model(linear, use_dll);
# loc = a * b;
[name = 'one', mcp = 'y > 0']
y = loc * y(-1) + e;
[static] x - b * x(+1) - y;
end;
initval(all_values_required); y = 0; x = -(0); end;
endval; y = .5; x = a ^ 2; end;
histval; y = 1; x = 2; end;
shocks(overwrite);
var d; periods 1 2:3, 4:9; values .5, (a+1) (2*b), .25;
var e; stderr .1;
var f; periods 7; values (-1);
end;
""", """var y x z;
varexo e u v;
predetermined_variables z;
trend_var g;
log_trend_var h;
parameters rho; rho = .9;
model;
y = rho*y(-1) + e + u; x = .5*x(+1) + y; z = .2*z(-1) + v;
end;
shocks;
var e = .1; var u; stderr rho/10; var v = .3 ^ 2;
corr e, u = .5;
var u, v = .001;
end;
initval; y = 0; end;
""", """var y; varexo_det d; parameters a;
a = .5;
model;
y = a*y(-1) + d;
end;
shocks;
var d;
periods 1 2:3;
values .5, (a+1), .25;
end;
steady(maxit = 100, tolf = 1e-8);
stoch_simul(order = 2, irf = 20, periods = 'x') y;
"""]


def plan(rng, i, tier):
    ex = examples()
    texts = []
    for k in range(2):
        d = gen.model(rng.child('m', k), max_n=3, order2=rng.random() < .3)
        texts.append((sut.mod_text(d, rng.choice([0, 1, 1, rng.randrange(64) & ~sut.SEARCHED])), d))
    texts += [(ex[k], None) for k in rng.sample(sorted(ex), min(2, len(ex)))]
    texts.append((rng.choice(RICH), None))
    n = rng.randint(5, 8) if tier == 'quick' else rng.randint(6, 14)
    words = ['y', 'x', 'alpha', 'model;', 'end;', 'var', '=', ';', ';', '(', ')', '+', '*', '1',
             '2.5', 'varexo', 'parameters', '\n']
    ops = []
    while len(ops) < n:
        u = rng.random()
        how = rng.choice(['text', 'text', 'file'])
        if u < .22:
            t, d = rng.choice(texts)
            op = {'op': 'load', 'text': t, 'kinds': ['none'], 'how': how}
            if d is not None:
                op['defn'] = d.dump()
        elif u < .36:
            e = rng.choice(EXPRS)
            kinds = ['none']
            if rng.random() < .8:
                kinds = [rng.choice(DAMAGE) for _ in range(rng.choice([1, 1, 2]))]
                for kd in kinds:
                    e = damage(rng, e, kd, rng.choice(EXPRS))
            op = {'op': 'expr', 'text': e[:2000], 'kinds': kinds,
                  'exp': rng.choice(['standard', 'standard', 'python'])}
        elif u < .46:
            op = {'op': 'load', 'text': garbage(rng, words), 'kinds': ['garbage'], 'how': how}
        else:
            t, d = rng.choice(texts + texts[:2])
            kinds = [rng.choice(DAMAGE) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            for kd in kinds:
                t = damage(rng, t, kd, rng.choice(texts)[0])
            op = {'op': 'load', 'text': t[:12000], 'kinds': kinds, 'how': how}
        if op['op'] == 'load' and rng.random() < .1:
            op['interrupt'] = [rng.choice(['interrupt', 'memory']), round(rng.random(), 6),
                               round(rng.random(), 6)]
        ops.append(op)
    return {'ops': ops}


# ---------------------------------------------------------------------------------
class Counted:
    """reading and building, each under its budget of interpreter lines"""

    def __init__(self):
        self.steps = 0

    def within(self, budget, size, what, f, *a):
        limit = budget[0] + budget[1] * size
        ln = faults.Lines(limit=limit, record=False)
        try:
            with ln:
                return f(*a)
        except faults.OutOfSteps:
            raise Violation(f"{what} a text of {size} characters has not ended after {limit} "
                            f"interpreter lines", 'steps')
        finally:
            self.steps += ln.count

    def load(self, op, root):
        from pynare.parsing import read_model
        Model = sut.pn().Model
        t = op['text']
        if op['how'] == 'file':
            p = os.path.join(root, 'm.mod')
            with open(p, 'wb') as f:
                f.write(t.encode('utf-8', 'surrogateescape'))
            return self.within(LOAD_STEPS, len(t), 'loading', Model.from_path, p)
        o = self.within(READ_STEPS, len(t), 'reading', read_model, t, 'dynare')
        return self.within(LOAD_STEPS, len(t), 'building the model of',
                           lambda: Model.from_outline(o, 'dynare', 'm'))

    def evaluate(self, op):
        from pynare.parsing import evaluate
        return self.within(READ_STEPS, len(op['text']), 'evaluating',
                           lambda: evaluate(op['text'], {'a': .5, 'b': 2.}, op['exp']))


def do(op, counted, root):
    """(kind, ...) of what came of an operation, as data"""
    try:
        with np.errstate(all='ignore'):
            v = counted.load(op, root) if op['op'] == 'load' else counted.evaluate(op)
    except Violation:
        raise
    except Exception as e:
        return ['error', type(e).__name__, clean(str(e))], None
    except BaseException as e:
        raise Violation(f"{type(e).__name__} instead of an ordinary exception: {str(e)[:100]}",
                        'ordinary')
    if op['op'] == 'expr':
        return ['value', clean(repr(v))], None
    return ['model', *account(v)], v


def clean(s):
    return re.sub(r'0x[0-9a-f]{6,}', '0x', s)[:400]


def account(m):
    out = []
    for f in (lambda: sut.describe(m), lambda: [str(e) for e in m.exprs.exprs],
              lambda: residuals(m)):
        ok, v = outcome(f)
        out.append(json.loads(json.dumps(v, default=repr)) if ok else
                   [type(v).__name__, clean(str(v))])
    return out


def residuals(m):
    with np.errstate(all='ignore'):
        n = len(m.endog)
        point = np.array([.7 + .13 * ((3 * k) % 7) for k in range(n)])
        return [float(x).hex() for x in np.ravel(m.steady_repr(point))]


def fresh(op, root):
    """the same operation in a process that has loaded nothing"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res, _ = do(op, Counted(), root)
            except Violation as e:
                res = ['violation', e.message, e.cls]
            data = json.dumps(res).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    res = json.loads(buf)
    if res[0] == 'violation':
        raise Violation(res[1], res[2])
    return res


def run(scn, ctx):
    root = os.path.realpath(tempfile.mkdtemp(dir=os.environ.get('DST_SCRATCH') or None))
    try:
        # what a fresh process says, before this one has read anything
        want = [fresh(op, root) for op in scn['ops']]
        for n, op in enumerate(scn['ops']):
            step(n, op, want[n], ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def step(n, op, want, ctx, root):
    where = f"text {n} ({'+'.join(op['kinds'])}): "
    for k in op['kinds']:
        if k != 'none':
            ctx.fault('damage: ' + k)
    ctx.time += len(op['text'])
    ctx.op(op['op'])
    if op.get('interrupt'):
        kind, u, v = op['interrupt']
        c = Counted()
        Model = sut.pn().Model
        from pynare.parsing import read_model
        f = lambda: Model.from_outline(read_model(op['text'], 'dynare'), 'dynare', 'm')
        _, _, cnt = faults.attempt(kind, None, f)
        if cnt.count:
            _, got, inj = faults.attempt(kind, faults.moment(cnt, True, u, v), f)
            if inj.where is not None:
                ctx.fault('load interrupted')
            ctx.log(n, 'interrupted')
    c = Counted()
    got, m = do(op, c, root)
    ctx.steps += c.steps
    ctx.judged()
    got = json.loads(json.dumps(got))
    if got != want:
        raise Violation(f"{where}{short(got)}; in a process that had loaded nothing before, "
                        f"{short(want)}", 'differs')
    ctx.state(*op['kinds'][:1], got[0], *([got[1], shape(got[2])] if got[0] == 'error' else []))
    ctx.log(n, op['kinds'], got)
    if op.get('defn') is not None:
        if m is None:
            raise Violation(f"{where}a whole text: {short(got)}", 'whole')
        from ..world import Oracle, Subject
        bad = Subject(ctx, Oracle(ctx), Defn.load(op['defn']), model=m).same_definition()
        if bad:
            raise Violation(f"{where}a whole text: {bad}", 'whole')
    if got[0] == 'model' and op['kinds'] != ['none']:
        ctx.probe('damaged text that is still a model')
    if got[:2] == ['error', 'RecursionError']:
        ctx.probe('nested deeper than the interpreter allows')


def shape(msg):
    return re.sub(r"'[^']*'|[0-9.]+", '#', msg)[:60]


def short(res):
    if res[0] == 'model':
        return 'a model ' + json.dumps(res[1:])[:300]
    return ' '.join(res)[:300]


def shrink(scn):
    yield from shrink_list(scn, 'ops', 1)
    for i, op in enumerate(scn['ops']):
        def with_(**kw):
            c = {**scn, 'ops': list(scn['ops'])}
            c['ops'][i] = {k: v for k, v in {**op, **kw}.items() if v is not None}
            return c
        if op.get('interrupt'):
            yield with_(interrupt=None)
        if op.get('defn'):
            yield with_(defn=None)
        if op.get('how') == 'file':
            yield with_(how='text')
        if op.get('defn'):
            continue
        t = op['text']
        size = len(t) // 2
        while size >= 1:
            for a in range(0, len(t), size):
                yield with_(text=t[:a] + t[a + size:])
                if a // size > 40:
                    break
            size //= 2
