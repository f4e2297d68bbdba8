"""P03: copies, regimes and sibling models never affect one another"""
import copy

import numpy as np

from .. import faults, gen, ref, sut
from ..gen import Rejected, apply_real, apply_ref
from ..kernel import Rng, Skip, Violation
from ..ref import Defn
from ..world import Oracle, Subject, ask, outcome, shrink_list

LEVEL = 'exploration'
COUNTS = {'quick': 520, 'thorough': 6000}
LIMIT = 90.
TIME_UNIT = 'operations on a family of models'
STATE_MEASURE = 'pairs (kinship of the model operated on and the model judged, operation)'
RULE = ('One run grows a family from one or two model definitions - copies, copies of copies, '
        'alternative regimes, models built again from the same dictionaries, outlines, syntax '
        "trees, or another model's own calibration and equations - and lets a seeded scheduler "
        'interleave edits, failing and interrupted edits, solves, occasionally-binding solves '
        "and queries across them, and the caller's own changes to its containers. After each "
        'step the definition of every member is compared with its own history alone, a random '
        'member is queried, and containers must be as the caller left them. '
        'Non-trivial: a result of a member that was not operated on was judged.')
REAL = ['all of pynare, autograd, numpy, scipy']
STUB = ['asynchronous exceptions are raised by a line tracer']
ASSUMPTIONS = ['syntax trees handed in by the caller are judged by what models built from them '
               'later report, not by their attributes']

HOW = ['kwargs', 'kwargs', 'outline', 'asts']


def over(rng, d, n=None):
    """equations a regime overrides, {index: equation}"""
    out = {}
    for i in rng.sample(range(len(d.exprs)), min(len(d.exprs), n or rng.choice([1, 1, 2]))):
        l, r = d.exprs[i]
        u = rng.random()
        if u < .5:
            v, x = rng.choice(d.endog)
            t = ['-', ['v', v, rng.choice([-1, 0, 0, 1])], gen.N(abs(x))] if x >= 0 else \
                gen.add(['v', v, 0], gen.N(-x))
            r = gen.add(r, gen.mul(gen.N(rng.uniform(.02, .4)), t))
        else:
            r = gen.add(r, gen.N(rng.uniform(.01, .1)))
        out[str(i)] = [l, r]
    return out


def overridden(d, ov):
    r = d.copy()
    for i, eq in ov.items():
        r.exprs[int(i)] = eq
    return r


def plan(rng, i, tier):
    """the scenario; mirrors the family's definitions to generate applicable edits"""
    roots, members, steps = [], [], []
    for k in range(rng.choice([1, 1, 2])):
        d = gen.model(rng.child('m', k), max_n=4, tiny=rng.random() < .15)
        roots.append({'model': d.dump(), 'how': rng.choice(HOW)})
        members.append(d)
    n = rng.randint(7, 12) if tier == 'quick' else rng.randint(10, 22)
    mutated = set()
    while len(steps) < n:
        w = rng.randrange(len(members))
        d = members[w]
        u = rng.random()
        if u < .12:
            st = {'do': 'copy', 'w': w}
            members.append(d)
        elif u < .17:
            k = rng.randrange(len(roots))
            if k in mutated:
                continue
            st = {'do': 'sibling', 'root': k}
            members.append(Defn.load(roots[k]['model']))
        elif u < .21:
            st = {'do': 'parts', 'w': w}
            members.append(d)
        elif u < .31 and d.exprs:
            form = rng.choice(['dict', 'list'])
            ovs = [over(rng, d) for _ in range(1 if form == 'dict' else rng.choice([1, 3]))]
            st = {'do': 'regimes', 'w': w, 'form': form, 'over': ovs}
            if form == 'list':
                members.append(d)
            members += [overridden(d, o) for o in ovs]
        elif u < .34:
            k = rng.randrange(len(roots))
            mutated.add(k)
            st = {'do': 'mutate', 'root': k, 's': rng.randrange(10 ** 6)}
        elif u < .42:
            st = {'do': 'solve', 'w': w, 'order': rng.choice([1, 2, 3])}
        elif u < .46 and d.exprs and d.stoch:
            st = {'do': 'occbin', 'w': w, 'over': over(rng, d, 1)}
        elif u < .60:
            st = {'do': 'query', 'w': w, 'q': rng.choice(gen.QUERY_NAMES),
                  's': rng.randrange(10 ** 6)}
        else:
            op = gen.bad_op(rng, d) if rng.random() < .12 else gen.edit(rng, d, .1)
            st = {'do': 'edit', 'w': w, 'op': op}
            try:
                new = apply_ref(d, op)
            except (Rejected, IndexError, KeyError):
                new = d
            if rng.random() < .25:
                st.update(do='strike', kind=rng.choice(faults.FAULTS),
                          at=round(rng.random(), 6), when=round(rng.random(), 6))
                # before or after is only known when it has happened; later edits are drawn
                #   against what it would be
            members[w] = new
        st['ask'] = [rng.randrange(10 ** 6), rng.choice(gen.QUERY_NAMES)]
        steps.append(st)
        if len(members) > 9:
            break
    return {'roots': roots, 'steps': steps, 'final': rng.randrange(10 ** 6)}


class Root:
    """what the caller holds: the containers its models are built from"""

    def __init__(self, doc):
        self.defn = Defn.load(doc['model'])
        self.how = doc['how']
        self.touched = False
        kw = sut.model_kwargs(self.defn)
        if self.defn.locals:
            kw['local_params'] = {k: sut.param_arg(d) for k, d in self.defn.locals.items()}
        if self.how == 'asts':
            from pynare.parsing import parse_string
            from pynare.core.expressions import ModelExprs
            kw['exprs'] = list(ModelExprs(kw['exprs']))
            for key in ('params', 'local_params'):
                kw[key] = {k: parse_string(v) if isinstance(v, str) else v
                           for k, v in kw.get(key, {}).items()}
        self.kw = kw
        self.outline = None
        if self.how == 'outline':
            from pynare.parsing import read_model
            self.outline = read_model(sut.mod_text(self.defn), 'dynare')
        self.before = self.freeze()

    def freeze(self):
        """the caller's plain containers, syntax trees by identity"""
        f = lambda o: {k: f(v) for k, v in o.items()} if isinstance(o, dict) else \
            [f(v) for v in o] if isinstance(o, list) else \
            o if isinstance(o, (str, int, float, type(None))) else id(o)
        return f(self.kw)

    def build(self):
        if self.outline is not None:
            return sut.pn().Model.from_outline(self.outline, 'dynare', self.defn.name)
        return sut.pn().Model(**self.kw)

    def mutate(self, seed):
        """the caller changes its own containers"""
        rng = Rng('mutate', seed)
        kw = self.kw
        for _ in range(3):
            k = rng.choice(['params', 'shocks', 'exprs', 'initial', 'endog', 'stoch', 'moment',
                            'local_params'])
            if k == 'params' and kw['params']:
                n = rng.choice(list(kw['params']))
                if rng.random() < .5:
                    kw['params'][n] = 123.
                else:
                    del kw['params'][n]
            elif k == 'local_params' and kw.get(k):
                kw[k][rng.choice(list(kw[k]))] = 77.
            elif k == 'shocks':
                kw['shocks'].pop(rng.choice(list(kw['shocks'])), None) if kw['shocks'] else None
            elif k == 'moment' and kw['shocks']:
                kw['shocks'][rng.choice(list(kw['shocks']))]['variance'] = 55.
            elif k == 'exprs' and kw['exprs']:
                if rng.random() < .5:
                    kw['exprs'][rng.randrange(len(kw['exprs']))] = 'zz = 1'
                else:
                    kw['exprs'].clear()
            elif k == 'initial' and kw['initial']:
                kw['initial'][rng.choice(list(kw['initial']))] = 3.3
            elif k in ('endog', 'stoch') and kw[k]:
                kw[k].reverse() if rng.random() < .5 else kw[k].append('zz')
        if self.outline is not None:
            for a in ('_endogenous', '_stochastic_exogenous', '_parameters', '_shocks',
                      '_initial_values', '_model_expression_asts', '_local_model_variables'):
                c = getattr(self.outline, a, None)
                if c is not None and rng.random() < .5 and hasattr(c, 'clear'):
                    c.clear()
        self.touched = True


class Family:
    def __init__(self, ctx, oracle, roots):
        self.ctx, self.oracle = ctx, oracle
        self.roots = [Root(r) for r in roots]
        self.members, self.kin = [], []
        for k, r in enumerate(self.roots):
            self.join(r.defn, r.build(), f"root{k}", 'root')

    def join(self, defn, model, label, kind):
        s = Subject(self.ctx, self.oracle, defn, label=label, model=model)
        self.kin.append(kind)
        if isinstance(model.solution_order, int):
            s.order = model.solution_order
        self.members.append(s)
        return s

    def containers(self, after):
        for k, r in enumerate(self.roots):
            if not r.touched and r.freeze() != r.before:
                raise Violation(f"after {after} the caller's containers have changed: "
                                f"{changed(r.freeze(), r.before)}", 'containers')
        self.ctx.judged()

    def everyone(self, after, skip=None):
        for s in self.members:
            if s is skip:
                continue
            bad = s.same_definition()
            self.ctx.judged()
            if bad:
                raise Violation(f"{s.label} changed when {after}: {bad}", 'definition')
            o = s.m.solution_order
            if s.order is not None and o != s.order:
                raise Violation(f"{s.label} has order {o} in force, not {s.order}, "
                                f"when {after}", 'order')


def changed(a, b):
    return '; '.join(f"{k}: {a.get(k)} was {b[k]}"[:160] for k in b if a.get(k) != b[k])


def run(scn, ctx):
    oracle = Oracle(ctx)
    fam = Family(ctx, oracle, scn['roots'])
    fam.containers('construction')
    fam.everyone('built')
    for n, st in enumerate(scn['steps']):
        ctx.time += 1
        acted, what = step(fam, st, ctx)
        if what is None:
            continue
        ctx.op(st['do'])
        ctx.log(n, what)
        fam.containers(what)
        fam.everyone(what)
        seed, q = st['ask']
        rng = Rng('ask', seed)
        others = [i for i, s in enumerate(fam.members) if s is not acted] or [0]
        for i in rng.sample(others, min(2, len(others))):
            s = fam.members[i]
            try:
                s.query({'q': q, 's': seed})
            except Violation as e:
                raise Violation(f"after {what}: {e.message}", e.cls)
            ctx.state(fam.kin[fam.members.index(acted)] if acted in fam.members else '-',
                      fam.kin[i], st['do'], q)
    rng = Rng('final', scn['final'])
    for s in fam.members:
        s.battery(rng.sample(gen.QUERY_NAMES, 5), scn['final'])


def step(fam, st, ctx):
    do = st['do']
    if do in ('sibling', 'mutate'):
        r = fam.roots[st['root']]
        if do == 'mutate':
            r.mutate(st['s'])
            ctx.fault("caller changes its containers")
            return None, f"the caller changed the containers of root {st['root']}"
        if r.touched:
            return None, None
        s = fam.join(r.defn, r.build(), f"sibling{len(fam.members)}", 'sibling')
        return s, f"a sibling was built from the containers of root {st['root']}"
    s = fam.members[st['w'] % len(fam.members)]
    m, d = s.m, s.defn
    if do == 'copy':
        ok, c = made(s, d, m.copy)
        if not ok:
            return s, f"{s.label} could not be copied"
        if c is m:
            raise Violation('a copy is the model itself', 'copy')
        if c.name != m.name:
            raise Violation(f"copy of {m.name!r} is called {c.name!r}", 'copy')
        fam.join(d, c, f"copy{len(fam.members)}of({s.label})", 'copy')
        return s, f"{s.label} was copied"
    if do == 'parts':
        if set(d.problems()) & {'dup'}:
            return None, None
        ok, c = made(s, d, lambda: sut.pn().Model(
            endog=list(d.endog_names), stoch=list(d.stoch_names), params=m.params,
            exprs=m.exprs, local_params=m.local_params,
            **{k: v for k, v in sut.model_kwargs(d).items()
               if k in ('shocks', 'initial', 'terminal', 'historical', 'determ')}))
        if not ok:
            return s, f"{s.label} could not be rebuilt"
        fam.join(d, c, f"rebuilt{len(fam.members)}from({s.label})", 'parts')
        return s, f"a model was built from {s.label}'s calibration and equations"
    if do == 'regimes':
        from pynare.regimes import RegimeSwitchingModel
        if any(int(i) >= len(d.exprs) for o in st['over'] for i in o):
            return None, None
        dicts = [{int(i): ref.expr_text(eq) for i, eq in o.items()} for o in st['over']]
        kept = copy.deepcopy(dicts)
        ok, rs = made(s, d, lambda: RegimeSwitchingModel(
            m, exprs=dicts[0] if st['form'] == 'dict' else dicts))
        if not ok:
            return s, f"regimes of {s.label} could not be built"
        if dicts != kept:
            raise Violation(f"regime equations changed: {dicts}", 'containers')
        if len(rs.models) != 1 + len(dicts):
            raise Violation(f"{len(rs.models)} regimes from {len(dicts)} alternatives", 'regimes')
        first = rs.models[0]
        if all(first is not x.m for x in fam.members):
            fam.join(d, first, f"reference{len(fam.members)}of({s.label})", 'reference')
        elif first is not m:
            raise Violation('the reference regime is some other model', 'regimes')
        for o, c in zip(st['over'], rs.models[1:]):
            if any(c is x.m for x in fam.members):
                raise Violation('an alternative regime is an existing model', 'regimes')
            fam.join(overridden(d, o), c, f"regime{len(fam.members)}of({s.label})", 'regime')
        return s, f"{len(dicts)} regimes of {s.label} were built"
    if do == 'solve':
        s.solve(st['order'])
        return s, f"{s.label} was solved"
    if do == 'occbin':
        return s, occbin(fam, s, st)
    if do == 'query':
        s.query(st)
        return s, f"{s.label} was asked for {st['q']}"
    if do == 'edit':
        s.edit(st['op'])
        return s, f"{s.label} was edited ({st['op'].get('what', st['op']['op'])})"
    if do == 'strike':
        return s, strike(fam, s, st, ctx)
    raise KeyError(do)


def made(s, d, f):
    """(True, model) or (False, why): only a definition that is unusable may be refused"""
    ok, got = outcome(f)
    if not ok and not d.problems():
        raise Violation(f"{s.label}: raised {type(got).__name__}: {str(got)[:160]}", 'raised')
    return ok, got


def occbin(fam, s, st):
    """an occasionally-binding solve: succeeds or raises, but touches nothing else"""
    d, m = s.defn, s.m
    if any(int(i) >= len(d.exprs) for i in st['over']) or not d.endog:
        return None
    v = d.endog_names[0]
    shocks = np.array([.1, 0., .1, 0.])
    kept = shocks.copy()
    con = [f"{v} < {-10 ** 6}.0", f"{v} > {-10 ** 6 + 1}.0"]
    exprs = {int(i): ref.expr_text(eq) for i, eq in st['over'].items()}
    ok, got = outcome(lambda: m.solve(constraint=con, exprs=exprs, shocks=shocks, periods=6))
    if not np.array_equal(shocks, kept) or len(con) != 2:
        raise Violation("the caller's shocks or constraint changed", 'containers')
    if not ok and fam.oracle.view(d).kind == 'unique':
        over_ = overridden(d, st['over'])
        if not over_.problems():
            raise Violation(f"{s.label}: occasionally-binding solve raised "
                            f"{type(got).__name__}: {got}", 'raised')
    if ok:
        s.order = None
        # its alternative regime is a model too
        alt = got.model.models[1]
        if all(alt is not x.m for x in fam.members) and len(fam.members) < 12:
            fam.join(overridden(d, st['over']), alt, f"alternative{len(fam.members)}of({s.label})",
                     'alternative')
        # back to a linear solution, so that later answers are defined
        s.solve(1)
    return f"{s.label} was solved with a constraint"


def strike(fam, s, st, ctx):
    op, d = st['op'], s.defn
    try:
        after = apply_ref(d, op)
    except (Rejected, IndexError, KeyError):
        after = None
    ok, twin = outcome(sut.build, d) if not d.problems() else (False, None)
    twin = twin if ok else None
    if twin is None:
        s.edit(op)
        return f"{s.label} was edited"
    # counted on a twin
    _, _, inj = faults.attempt(st['kind'], None, poke, twin, op)
    if not inj.count:
        s.edit(op)
        return f"{s.label} was edited"
    at = faults.moment(inj, True, st['at'], st['when'])
    ok, got, inj = faults.attempt(st['kind'], at, poke, s.m, op)
    ctx.steps += inj.count
    if inj.where:
        ctx.fault(st['kind'])
    # the definition whose equations can be evaluated is the one that can be told apart
    cands = sorted((c for c in (d, after) if c is not None), key=lambda c: bool(c.problems()))
    if ok and after is not None:
        cands = [after]
    fits = [c for c in cands if not s.same_definition(c)]
    if len(fits) == 2 and fits[0].problems() and fits[0].key() != fits[1].key():
        raise Skip('two unusable definitions that cannot be told apart')
    if fits:
        s.defn = fits[0]
    else:
        raise Violation(f"{s.label}: interrupted edit left neither definition: "
                        f"{s.same_definition(cands[0])}", 'definition')
    return f"{s.label} was edited, struck by {st['kind']} at {inj.where}"


def poke(m, op):
    """the edit, and the work it causes"""
    apply_real(m, op)
    m.jacobian


def shrink(scn):
    yield from shrink_list(scn, 'steps')
    if len(scn['roots']) > 1 and all(st.get('w', 0) != 1 for st in scn['steps']):
        yield {**scn, 'roots': scn['roots'][:1]}
