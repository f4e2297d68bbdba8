"""seeded randomness, digests of what happened, and the record a simulated run leaves"""
import collections
import hashlib
import json
import random

import numpy as np


class Rng(random.Random):
    """a generator derived from a path of labels, the same in every process"""

    def __new__(cls, *path):
        return super().__new__(cls)

    def __init__(self, *path):
        super().__init__()
        self.path = path
        self.seed('/'.join(map(str, path)), version=2)

    def child(self, *labels):
        return Rng(*self.path, *labels)

    def __reduce__(self):
        raise TypeError


class Violation(Exception):
    """the property is broken. `cls` names the kind of breakage, for minimisation"""

    def __init__(self, message, cls='violation'):
        super().__init__(message)
        self.message, self.cls = str(message), cls


class Skip(Exception):
    """the scenario turned out not to be one the property speaks about"""


class Context:
    """what one simulated run records about itself"""

    def __init__(self):
        self.events = []              # the log: determinism is judged on it
        self.h = hashlib.sha256()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.ops = collections.Counter()
        self.states = set()
        self.time = 0                 # simulated periods
        self.steps = 0                # traced interpreter steps
        self.evaluations = 0          # oracle evaluations

    def log(self, *objs):
        """record an event; objects enter the digest bit for bit"""
        for o in objs:
            self.h.update(_bytes(o))
        self.events.append(' '.join(_short(o) for o in objs))

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def op(self, name, n=1):
        self.ops[name] += n

    def judged(self, n=1):
        self.evaluations += n

    def state(self, *key):
        self.states.add(hashlib.sha256(_bytes(list(key))).hexdigest()[:12])

    def digest(self):
        return self.h.hexdigest()[:24]

    def dump(self):
        return {'digest': self.digest(), 'faults': dict(self.faults),
                'probes': dict(self.probes), 'ops': dict(self.ops),
                'states': sorted(self.states), 'time': self.time, 'steps': self.steps,
                'evaluations': self.evaluations, 'n_events': len(self.events),
                'tail': self.events[-12:]}


def _short(o):
    if isinstance(o, str):
        return o[:80]
    if isinstance(o, np.ndarray):
        return f"array{o.shape}#{hashlib.sha256(_bytes(o)).hexdigest()[:8]}"
    if isinstance(o, (list, tuple)) and any(isinstance(x, np.ndarray) for x in o):
        return '[' + ' '.join(_short(x) for x in o) + ']'
    return str(o)[:80]


def _bytes(o):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return repr(o.tolist()).encode()
        return str(o.shape).encode() + np.ascontiguousarray(o).tobytes()
    if isinstance(o, (list, tuple)):
        return b'[' + b','.join(_bytes(x) for x in o) + b']'
    if isinstance(o, float):
        return o.hex().encode()
    if isinstance(o, dict):
        return json.dumps(o, sort_keys=True, default=str).encode()
    return repr(o).encode()


def digest_of(*objs):
    return hashlib.sha256(_bytes(list(objs))).hexdigest()[:16]
