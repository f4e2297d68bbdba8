"""checks: run the seeds, minimise what fails, write the replay file and the evidence"""
import collections
import hashlib
import json
import os
import subprocess
import sys
import time

from . import boot, pool

VERIF = boot.VERIF
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS')
SOFT_CAP = {'quick': 270., 'thorough': 720.}
ALL = ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13']


def say(*a):
    print(*a, flush=True)


def main(argv):
    if not argv:
        say(__doc__)
        return 2
    cmd, rest = argv[0], argv[1:]
    opts = {}
    args = []
    it = iter(rest)
    for a in it:
        if a.startswith('--'):
            opts[a[2:]] = next(it)
        else:
            args.append(a)
    if cmd == 'check':
        return check(args[0], opts)
    if cmd == 'replay':
        return replay(args[0])
    if cmd == 'selftest':
        return selftest(args or ALL, opts)
    if cmd == 'digests':
        return digests(args[0], int(opts.get('count', 20)), int(opts.get('workers', 4)),
                       int(opts.get('seed', 1)))
    if cmd == 'zygote':
        from . import zygote
        return zygote.serve(*args)
    if cmd == 'setup':
        pool.warm()
        import pynare
        say(f"ready: {pynare.__file__}")
        return 0
    say(f"unknown command {cmd}")
    return 2


def findings():
    """known findings: lines `known: property=P01 match=<text> -- <what fails>`"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('known:'):
                head, _, what = line[6:].partition(' -- ')
                prop = head.split('property=')[1].split()[0]
                out.append((prop, head.split('match=')[1].strip(), what))
    return out


def check(pid, opts):
    t0 = time.monotonic()
    tier = opts.get('tier') or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(opts.get('seed') or os.environ.get('VERIF_SEED') or 1)
    mod = pool.load(pid)
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    pool.warm()
    say(f"check {pid} tier={tier} seed={seed}")
    count = int(opts.get('count') or mod.COUNTS[tier])
    cap = float(opts.get('cap') or SOFT_CAP[tier])
    P = pool.Pool(mod, limit=getattr(mod, 'LIMIT', 60.))

    items = ((i, {'gen': [pid, seed, i, tier]}) for i in range(count))
    agg = Aggregate(mod)
    bad, errors, known = [], [], {}
    known_list = [f for f in findings() if f[0] == pid]
    stop = lambda: bool(bad) or len(errors) > 3 or time.monotonic() - t0 > cap
    for key, scn, res in P.map(items, stop=stop):
        if res['status'] in ('timeout', 'died'):
            bad.append((key, scn, res))
            continue
        if res['status'] == 'error':
            errors.append((key, res))
            continue
        if res['status'] == 'violation':
            hit = [f for f in known_list if f[1] in res['message']]
            if hit:
                known.setdefault(hit[0][2], 0)
                known[hit[0][2]] += 1
            else:
                bad.append((key, scn, res))
        agg.add(key, res)

    violation = None
    for key, scn, res in sorted(bad, key=lambda b: b[0]):
        res = P.settle(scn, res)
        if res['status'] == 'violation':
            violation = (key, res.get('scenario', scn), res)
            break
        if res['status'] == 'error':
            errors.append((key, res))
        else:
            agg.add(key, res)      # only slow

    # the same seeds again: every run is a function of its seed
    repeated = diverged = 0
    if violation is None and not errors:
        again = [k for k in sorted(agg.digests)][:mod.__dict__.get('REPEAT', 24)]
        P2 = pool.Pool(mod, workers=3, limit=P.limit)
        for key, scn, res in P2.map(((k, {'gen': [pid, seed, k, tier]}) for k in reversed(again))):
            if res['status'] in ('ok', 'skip'):
                repeated += 1
                diverged += res['digest'] != agg.digests[key]

    for what, n in known.items():
        say(f"KNOWN-FINDING: property={pid} {what} ({n} runs)")
    code = 0
    if violation is not None:
        code = 1
        path = report(P, mod, pid, tier, seed, violation, errors)
        say(f"VIOLATION property={pid} replay={path}")
    elif errors:
        code = 2
        for k, e in errors[:3]:
            say(f"check error in run {k}:\n{e['message']}")
    wall = time.monotonic() - t0
    write_evidence(pid, mod, tier, seed, agg, wall, violation, repeated, diverged, known, count)
    say(f"{pid}: {agg.n} runs, {agg.evaluations} judgements, {len(agg.states)} distinct "
        f"{mod.STATE_MEASURE}; faults {dict(agg.faults)}; repeated {repeated}, diverged {diverged}; "
        f"{wall:.1f} s")
    return code


class Aggregate:
    def __init__(self, mod):
        self.mod = mod
        self.n = self.skipped = self.evaluations = self.time = self.steps = 0
        self.faults = collections.Counter(); self.probes = collections.Counter()
        self.ops = collections.Counter()
        self.states, self.digests, self.samples = set(), {}, {}
        self.distinct = set()

    def add(self, key, res):
        self.n += 1
        self.skipped += res['status'] == 'skip'
        self.evaluations += res['evaluations']
        self.time += res['time']; self.steps += res['steps']
        self.faults.update(res['faults']); self.probes.update(res['probes'])
        self.ops.update(res['ops']); self.states.update(res['states'])
        self.digests[key] = res['digest']
        if res['status'] != 'skip' and res['evaluations']:
            self.distinct.add(res['digest'])
        if 'scenario' in res:
            self.samples[key] = res['scenario']


def write_evidence(pid, mod, tier, seed, agg, wall, violation, repeated, diverged, known, planned):
    os.makedirs(EVIDENCE, exist_ok=True)
    hours = max(wall, 1e-9) / 3600
    samples = [json.loads(json.dumps(s, default=str)) for _, s in sorted(agg.samples.items())[:2]]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': agg.n,
            'judgements': agg.evaluations,
            'distinct_nontrivial': len(agg.distinct),
            'rule': mod.RULE,
            'samples': samples,
            'one_evaluation_is': 'one simulated run of one seed',
            'planned_runs': planned, 'skipped_runs': agg.skipped,
            'runs_per_hour': round(agg.n / hours),
            'simulated_time': {'amount': agg.time, 'unit': mod.TIME_UNIT},
            'traced_interpreter_steps': agg.steps,
            'faults_injected': dict(agg.faults),
            'operations': dict(agg.ops),
            'rare_conditions_hit': dict(agg.probes),
            'distinct_states': {'count': len(agg.states), 'measure': mod.STATE_MEASURE},
            'real_components': mod.REAL, 'stubbed_components': mod.STUB,
            'determinism': {'seeds_run_again': repeated, 'diverged': diverged},
            'known_findings_hit': known,
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': 0 if violation is None else 1,
    }
    tmp = os.path.join(EVIDENCE, f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f'{pid}.json'))


# ---------------------------------------------------------------------------------
def size(scn):
    return len(json.dumps(scn, default=str))


def same(cls, res):
    return res['status'] == 'violation' and res['cls'] == cls


def minimise(P, mod, scn, res, seconds=60.):
    """greedy descent through `mod.shrink`, keeping the same kind of violation"""
    t0, tried, best, best_res = time.monotonic(), 0, scn, res
    if not hasattr(mod, 'shrink') or res['cls'] in ('hang', 'died'):
        return best, best_res, tried
    if res.get('refined'):
        # the choices a seed made, spelled out, so that they can be dropped one by one
        refined = json.loads(json.dumps(res['refined']))
        r = P.one(refined)
        if same(res['cls'], r):
            best, best_res = refined, r
    progress = True
    seen = set()
    while progress and time.monotonic() - t0 < seconds:
        progress = False
        cands = []
        for c in mod.shrink(json.loads(json.dumps(best))):
            k = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()
            if k not in seen and size(c) < size(best) + 1:
                seen.add(k)
                cands.append(c)
        for i in range(0, len(cands), P.workers):
            batch = cands[i:i + P.workers]
            got = {}
            for key, c, r in P.map(list(enumerate(batch)), limit=20.):
                tried += 1
                if same(res['cls'], r):
                    got[key] = (c, r)
            if got:
                k = min(got)
                best, best_res = got[k]
                progress = True
                break
            if time.monotonic() - t0 > seconds:
                break
    return best, best_res, tried


def report(P, mod, pid, tier, seed, violation, errors):
    key, scn, res = violation
    say(f"{pid}: run {key} (seed {seed}): {res['message']}")
    before = size(scn)
    small, sres, tried = minimise(P, mod, scn, res)
    os.makedirs(REPLAYS, exist_ok=True)
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'run': key, 'scenario': small,
           'violation': {'cls': sres['cls'], 'message': sres['message']},
           'digest': sres.get('digest'), 'last_events': sres.get('tail'),
           'trace': sres.get('trace'),
           'minimised': {'bytes_before': before, 'bytes_after': size(small), 'tried': tried}}
    tag = hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{pid}-{tag}.json")
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    # again, in a fresh process
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), 'replay', path],
                           capture_output=True, text=True, timeout=400)
        doc['replayed_in_fresh_process'] = p.returncode == 1
    except subprocess.TimeoutExpired:
        doc['replayed_in_fresh_process'] = False
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    say(f"minimised from {before} to {size(small)} bytes in {tried} runs; "
        f"reproduced in a fresh process: {doc['replayed_in_fresh_process']}")
    say(f"{pid}: {sres['message']}")
    for e in (sres.get('tail') or [])[-8:]:
        say(f"    {e}")
    return path


def replay(path):
    doc = json.load(open(path))
    mod = pool.load(doc['property'])
    if hasattr(mod, 'prepare'):
        mod.prepare('quick')
    pool.warm()
    P = pool.Pool(mod, workers=1, limit=getattr(mod, 'LIMIT', 60.))
    res = P.settle(doc['scenario'], P.one(doc['scenario']))
    if res['status'] == 'violation':
        say(res['message'])
        for e in res.get('tail') or []:
            say(f"    {e}")
        say(f"digest {res.get('digest')} (recorded {doc.get('digest')})")
        say(f"VIOLATION property={doc['property']} replay={os.path.abspath(path)}")
        return 1
    if res['status'] in ('error', 'timeout', 'died'):
        say(res.get('message', res['status']))
        return 2
    say(f"{doc['property']}: held ({res['status']})")
    return 0


# ---------------------------------------------------------------------------------
def digests(pid, count, workers, seed):
    mod = pool.load(pid)
    if hasattr(mod, 'prepare'):
        mod.prepare('quick')
    pool.warm()
    P = pool.Pool(mod, workers=workers, limit=getattr(mod, 'LIMIT', 60.))
    out = {}
    for k, _, res in P.map(((i, {'gen': [pid, seed, i, 'quick']}) for i in range(count))):
        out[k] = [res['status'], res.get('digest'), res.get('n_events')]
    say(json.dumps(out, sort_keys=True))
    return 0


def selftest(pids, opts):
    """the same seeds in fresh interpreters, other worker counts and other hash seeds"""
    count = int(opts.get('count', 40))
    bad = 0
    for pid in pids:
        runs = []
        for workers, hs in ((8, '0'), (3, '0'), (5, '77')):
            env = boot.environment(hash_seed=hs, scratch=os.environ.get('DST_SCRATCH'))
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), 'digests', pid,
                                '--count', str(count), '--workers', str(workers)],
                               env=env, capture_output=True, text=True)
            runs.append(json.loads(p.stdout.strip().splitlines()[-1]))
        same_ = sum(runs[0][k] == runs[1][k] for k in runs[0])
        hashed = sum(runs[0][k] == runs[2][k] for k in runs[0])
        say(f"{pid}: {same_}/{count} identical in a fresh process with 3 workers, "
            f"{hashed}/{count} identical under another hash seed")
        bad += same_ != count
    return 1 if bad else 0
