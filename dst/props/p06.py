"""P06: a loaded model is the whole file or an error, whatever the disk does"""
import os
import pathlib
import shutil
import tempfile

from .. import boot, faults, gen, simdisk, sut
from ..kernel import Rng, Violation
from ..ref import Defn
from ..world import Oracle, Subject, diff, outcome, shrink_list

LEVEL = 'exploration'
COUNTS = {'quick': 2000, 'thorough': 14000}
LIMIT = 60.
TIME_UNIT = 'simulated microseconds of disk time'
STATE_MEASURE = 'quadruples (form of the path, what is there, fault, outcome)'
RULE = ('One run is a scratch directory with model files (whole, torn, replaced in place or '
        'atomically with equal size and modification time, named like bundled examples, '
        'directories, missing) and a seeded sequence of loads by string and path object, '
        'relative and absolute, from changing working directories, while the simulated disk '
        'returns short, interrupted and delayed reads, fails opens and reads with a seeded '
        'error at a seeded offset, replaces the file between two reads, or the user interrupts '
        'at a line. Each outcome is compared with the model of the complete text, or the very '
        'error the disk reported; no descriptor may stay open, even while the error is held; '
        'a load after the fault succeeds. Non-trivial: a load was judged.')
REAL = ["all of pynare; python's own buffered text I/O on real files in a scratch directory"]
STUB = ['open and read system calls, at the boundary between python and the kernel '
        '(builtins.open, io.open, os.open, os.read)']
ASSUMPTIONS = ['files are only replaced atomically while being read']

EXAMPLES = ['simple_linear', 'basic_nk', 'four_eq_nk', 'herbst_schorfheide', 'simple_rbc',
            'optim_ck']
NAMES = ['model.mod', 'm2.txt', 'sub/model.mod', 'sub/deep/a.b.mod', 'noext', 'basic_nk',
         'simple_linear', 'sub/basic_nk', 'name with space.mod', 'modèle.mod', 'four_eq_nk']
OPEN = ['EACCES', 'EPERM', 'EMFILE', 'ENFILE', 'ENOMEM', 'ELOOP', 'EIO', 'ESTALE', 'ETIMEDOUT',
        'ENXIO']
# no ENOENT: a descriptor that is open does not lose its file
READ = ['EIO', 'EIO', 'ESTALE', 'ETIMEDOUT', 'EISDIR', 'ENOMEM', 'memory', 'EACCES']


def text_of(rng, d):
    t = sut.mod_text(d, rng.choice([0, 1]))
    if rng.random() < .3:
        # characters of several bytes, in a comment
        t = '// ' + ''.join(rng.choice('éüñ€→日本 a') for _ in range(rng.randint(5, 60))) + '\n' + t
    if rng.random() < .15:
        t = t.replace('\n', '\r\n')
    if rng.random() < .2:
        pad = '// padding\n' * rng.choice([10, 1000])
        t = t + '\n' + pad if rng.random() < .6 else pad + t
    elif rng.random() < .06:
        # what matters lies far into the file
        t = '// padding\n' * rng.choice([3000, 7000]) + t
    if rng.random() < .15:
        t = t.rstrip()
    return t


def plan(rng, i, tier):
    ops = []
    names = rng.sample(NAMES, rng.randint(2, 4))
    models, texts = [], []
    for k in range(rng.choice([1, 2, 2])):
        d = gen.model(rng.child('m', k), max_n=3, order2=False)
        models.append(d.dump())
        texts.append(text_of(rng, d))
    n = rng.randint(5, 9) if tier == 'quick' else rng.randint(6, 16)
    for nm in names[:rng.randint(1, len(names))]:
        ops.append({'op': 'write', 'name': nm, 'k': rng.randrange(len(texts)), 'cut': None})
    while len(ops) < n:
        u = rng.random()
        if u < .1:
            ops.append({'op': 'write', 'name': rng.choice(names), 'k': rng.randrange(len(texts)),
                        'cut': None, 'how': rng.choice(['rename', 'inplace']),
                        'same_time': rng.random() < .7, 'same_size': rng.random() < .5})
        elif u < .16:
            ops.append({'op': 'write', 'name': rng.choice(names), 'k': rng.randrange(len(texts)),
                        'cut': round(rng.random(), 6)})
        elif u < .20:
            ops.append({'op': 'delete', 'name': rng.choice(names)})
        elif u < .24:
            ops.append({'op': 'mkdir', 'name': rng.choice(names)})
        elif u < .34:
            ops.append({'op': 'cd', 'to': rng.choice(['.', 'sub', 'elsewhere', '/'])})
        else:
            op = {'op': 'load', 'name': rng.choice(names) if rng.random() < .75 else
                  rng.choice(EXAMPLES[:4] + ['no_such_model', 'nothing.mod', *EXAMPLES[4:]]),
                  'form': rng.choice(['str', 'Path', 'str', 'Path', 'rel', 'relPath', 'bare',
                                      'barePath']),
                  'plan': disk_plan(rng, len(texts), max(map(len, texts))), 'check': rng.random() < .25}
            if rng.random() < .12:
                op['interrupt'] = [rng.choice(['interrupt', 'memory']), round(rng.random(), 6),
                                   round(rng.random(), 6)]
            ops.append(op)
    return {'models': models, 'texts': texts, 'ops': ops}


def disk_plan(rng, n_texts, size=0):
    p = {}
    u = rng.random()
    if u < .55:
        p['chunks'] = [rng.choice([1, 2, 3, 7, 64, 511, 4096]) for _ in range(rng.randint(1, 4))]
        if rng.random() < .15:
            p['chunks'] = [1]
        if size > 20000:
            p['chunks'] = [max(c, 511) for c in p['chunks']]
    if rng.random() < .3:
        p['eintr'] = sorted(rng.sample(range(12), rng.randint(1, 4)))
    if rng.random() < .3:
        p['delays'] = [rng.randrange(100000) for _ in range(3)]
    u = rng.random()
    if u < .2:
        p['read_error'] = [rng.choice(READ), rng.choice([0, round(rng.random(), 4), 1.0,
                                                         round(rng.random(), 4)])]
    elif u < .32:
        p['open_error'] = [rng.choice(OPEN), rng.choice([1, 1, 9])]
    elif u < .42:
        p['replace_at'] = rng.randrange(4)
        p['replace_with'] = rng.randrange(n_texts)
    return p


# ---------------------------------------------------------------------------------
class Tree:
    """the scratch directory and what should be in it"""

    def __init__(self, texts):
        self.texts = texts
        self.root = os.path.realpath(tempfile.mkdtemp(dir=os.environ.get('DST_SCRATCH') or None))
        for d in ('sub/deep', 'elsewhere'):
            os.makedirs(os.path.join(self.root, d))
        self.here = {}                # path relative to the root -> (text, which model or None)
        os.chdir(self.root)

    def path(self, name):
        return os.path.join(self.root, name)

    def write(self, op):
        p = self.path(op['name'])
        if os.path.isdir(p):
            return
        k = op['k']
        text = self.texts[k]
        whole = True
        data = text.encode()
        if op.get('cut') is not None:
            # at any byte, in the middle of a character too
            data, whole = data[:int(op['cut'] * len(data))], False
        old = os.stat(p) if os.path.exists(p) else None
        if op.get('same_size') and old is not None:
            # the same number of bytes as what is there now
            pad = old.st_size - len(data)
            if pad > 0:
                data = data + b'\n' * pad
        if op.get('how') == 'inplace' or old is None:
            with open(p, 'wb') as f:
                f.write(data)
        else:
            with open(p + '.new', 'wb') as f:
                f.write(data)
            os.rename(p + '.new', p)
        if old is not None and op.get('same_time'):
            os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
        self.here[op['name']] = (data, k if whole else None)

    def remove(self):
        os.chdir('/')
        shutil.rmtree(self.root, ignore_errors=True)


def example_text(name):
    root = os.path.join(boot.REPO, 'pynare', 'examples')
    for dp, _, fs in os.walk(root):
        for f in fs:
            if f.rsplit('.', 1)[0] == name and f.endswith(('.mod', '.txt')):
                return open(os.path.join(dp, f)).read()


def model_of(text):
    """what the complete text says, read from memory"""
    from pynare.parsing import read_model

    def load():
        # a text file's lines end however they like
        s = text.decode() if isinstance(text, bytes) else text
        s = s.replace('\r\n', '\n').replace('\r', '\n')
        return sut.pn().Model.from_outline(read_model(s, 'dynare'), 'dynare', '')
    return outcome(load)


def same_as(ok, got, want_ok, want):
    """'' or how a loaded model differs from the model of a text"""
    if ok != want_ok:
        return f"{brief(ok, got)}; the text gives {brief(want_ok, want)}"
    if not ok:
        if isinstance(want, UnicodeDecodeError) and isinstance(got, UnicodeDecodeError):
            return ''
        if (type(got), str(got)) != (type(want), str(want)):
            return f"{brief(ok, got)}; the text gives {brief(want_ok, want)}"
        return ''
    a, b = sut.describe(got), sut.describe(want)
    return diff(a, b) or ('' if [str(e) for e in got.exprs.exprs] ==
                          [str(e) for e in want.exprs.exprs] else '')


def brief(ok, v):
    return 'a model' if ok else f"{type(v).__name__}: {str(v)[:120]}"


def run(scn, ctx):
    tree = Tree(scn['texts'])
    try:
        oracle = Oracle(ctx)
        for n, op in enumerate(scn['ops']):
            k = op['op']
            ctx.op(k)
            p = tree.path(op['name']) if 'name' in op else None
            if k == 'write':
                tree.write(op)
                if op.get('cut') is not None:
                    ctx.fault('torn file')
                elif op.get('how'):
                    ctx.fault('file rewritten' + (', same time' if op.get('same_time') else ''))
            elif k == 'delete':
                if op['name'] in tree.here:
                    os.unlink(p)
                    del tree.here[op['name']]
            elif k == 'mkdir':
                if not os.path.exists(p):
                    os.mkdir(p)
            elif k == 'cd':
                os.chdir('/' if op['to'] == '/' else tree.path(op['to']))
                ctx.fault('working directory changed')
            else:
                load(scn, tree, n, op, ctx, oracle)
    finally:
        tree.remove()


def load(scn, tree, n, op, ctx, oracle):
    Model = sut.pn().Model
    name, form = op['name'], op['form']
    p = tree.path(name)
    example = name in EXAMPLES
    if form in ('bare', 'barePath'):
        p = name                       # relative to wherever we are
    elif form in ('rel', 'relPath'):
        p = os.path.relpath(p)
    arg = pathlib.Path(p) if form.endswith('Path') else p
    target = os.path.join(os.getcwd(), str(p))
    real = os.path.realpath(target)
    inside = real.startswith(tree.root + os.sep)
    rel = os.path.relpath(real, tree.root) if inside else None
    exists = os.path.exists(target)
    content = tree.here.get(rel) if exists else None
    is_dir = os.path.isdir(target)
    if exists and content is None and not is_dir:
        return                         # something of the machine's; not ours to load

    fallback = None
    if not exists and str(arg) in EXAMPLES:
        fallback = example_text(str(arg))

    plan_ = op['plan']
    new = None
    swap = None
    if 'replace_at' in plan_ and content is not None:
        new = scn['texts'][plan_['replace_with'] % len(scn['texts'])]

        def swap():
            with disk.saved[0](real + '.new', 'wb') as f:
                f.write(new.encode())
            os.rename(real + '.new', real)
    disk = simdisk.Disk(tree.root, plan_, on_replace=swap)
    if fallback is not None:
        disk.extra = (os.path.join(os.path.realpath(boot.REPO), 'pynare', 'examples') + os.sep,)

    before = simdisk.open_fds()
    inj = None
    with disk:
        if op.get('interrupt'):
            kind, u, v = op['interrupt']
            # how many lines a load takes is learnt from one without faults
            disk.plan, kept = {}, disk.plan
            _, _, cnt = faults.attempt(kind, None, Model.from_path, arg)
            disk.plan = kept
            disk.opens = disk.reads = 0
            if cnt.count:
                at = faults.moment(cnt, True, u, v)
                ok, got, inj = faults.attempt(kind, at, Model.from_path, arg)
            else:
                ok, got = outcome(Model.from_path, arg)
        else:
            ok, got = outcome(Model.from_path, arg)
    after = simdisk.open_fds()
    ctx.time += disk.clock
    for f, c in disk.fired.items():
        ctx.fault(f, c)
    left = {k: v for k, v in after.items() if before.get(k) != v}
    ctx.judged()
    what = 'a directory' if is_dir else 'torn' if content and content[1] is None else \
        'a file' if content else 'an example' if fallback else 'nothing'
    where = f"load {n} of {what} by {form}: "
    if left:
        raise Violation(f"{where}left open: {sorted(left.values())}", 'open file')
    failed = [f for f in disk.fired if f.startswith(('open fails', 'read fails'))]
    ctx.state(form, what, sorted(disk.fired), ok if ok else type(got).__name__)
    ctx.log(n, form, what, sorted(disk.fired.items()), ok if ok else type(got).__name__)

    if new is not None and 'replaced while being read' in disk.fired:
        tree.here[rel] = (new, plan_['replace_with'] % len(scn['texts']))
    struck = inj is not None and inj.where is not None
    if struck:
        ctx.fault('user interrupt or memory exhaustion while loading')
        if not ok and isinstance(got, faults.Injected):
            again(tree, arg, tree.here.get(rel) if rel else None, fallback, where, ctx)
            return
    if failed:
        expect_error(where, failed[0], ok, got, disk)
    elif exists and is_dir:
        if ok or not isinstance(got, IsADirectoryError):
            raise Violation(f"{where}{brief(ok, got)}", 'directory')
    elif content is not None:
        expect_text(where, ok, got, content[0], content[1], scn, op, ctx, oracle,
                    [new] if new is not None and 'replaced while being read' in disk.fired
                    else [], str(p))
    elif fallback is not None:
        w_ok, w = model_of(fallback)
        bad = same_as(ok, got, w_ok, w)
        if bad:
            raise Violation(f"{where}{bad}", 'example')
        ctx.probe('bundled example loaded')
    else:
        if str(arg).split('.')[0] in EXAMPLES:
            return
        if ok or not isinstance(got, FileNotFoundError):
            raise Violation(f"{where}{brief(ok, got)} for a path that is neither a file nor an "
                            "example", 'not found')
    ctx.judged()
    again(tree, arg, tree.here.get(rel) if rel else None, fallback, where, ctx)


def expect_error(where, failed, ok, got, disk):
    name = failed.split(': ')[1]
    if ok:
        raise Violation(f"{where}a model was loaded although {failed}", 'error ignored')
    if name == 'memory':
        good = isinstance(got, MemoryError)
    else:
        good = isinstance(got, OSError) and got.errno == simdisk.ERRNOS[name]
        if name == 'ENOENT':
            good = isinstance(got, OSError)
    if not good:
        raise Violation(f"{where}{brief(ok, got)} although {failed}", 'error replaced')


def expect_text(where, ok, got, text, which, scn, op, ctx, oracle, others, p):
    problems = []
    for t in [text, *others]:
        w_ok, w = model_of(t)
        bad = same_as(ok, got, w_ok, w)
        if not bad:
            break
        problems.append(bad)
    else:
        raise Violation(f"{where}{problems[0]}", 'text')
    if ok and which is not None and not others:
        d = Defn.load(scn['models'][which])
        s = Subject(ctx, oracle, d, model=got)
        bad = s.same_definition()
        if bad:
            raise Violation(f"{where}{bad}", 'definition')
        stem = p.split('/')[-1].split('.')[0]
        if got.name != stem:
            raise Violation(f"{where}the model is called {got.name!r}, its file {p!r}", 'name')
        if op['check']:
            s.battery(['ss', 'jac', 'sigma', 'first'], 1)
    elif which is not None and not ok:
        raise Violation(f"{where}{brief(ok, got)} for a whole file", 'text')


def again(tree, arg, content, fallback, where, ctx):
    """once the disk works again so does loading"""
    if content is None and fallback is None:
        return
    ok, got = outcome(sut.pn().Model.from_path, arg)
    ctx.judged()
    bad = same_as(ok, got, *model_of(content[0] if content is not None else fallback))
    if bad:
        raise Violation(f"{where}loading it again, without a fault: {bad}", 'again')


def shrink(scn):
    yield from shrink_list(scn, 'ops', 1)
    for i, op in enumerate(scn['ops']):
        if op['op'] == 'load':
            for k in list(op['plan']):
                c = {**scn, 'ops': list(scn['ops'])}
                c['ops'][i] = {**op, 'plan': {a: b for a, b in op['plan'].items() if a != k}}
                yield c
            if op['form'] != 'str':
                c = {**scn, 'ops': list(scn['ops'])}
                c['ops'][i] = {**op, 'form': 'str'}
                yield c
            if op.get('interrupt'):
                c = {**scn, 'ops': list(scn['ops'])}
                c['ops'][i] = {a: b for a, b in op.items() if a != 'interrupt'}
                yield c
