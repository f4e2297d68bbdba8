"""
Real threads, one running at a time, switched by a seeded scheduler.

Every executed line of pynare (and of autograd and scipy, when `deep`) is a point where the
scheduler may hand control to another thread, stall the thread, or end it. Which of them
happens is a function of the seed and of the number of lines executed so far, so a schedule is
exactly repeatable.
"""
import _thread
import os
import sys

from . import faults, simlock
from .kernel import Violation


class Killed(BaseException):
    """a thread dies in the middle of what it's doing"""


class Thread:
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.ident = None
        self.waiting = None           # the lock it waits for
        self.timed = False
        self.stalled = False
        self.killed = None
        self.lines = 0
        self.kill_at = self.stall_at = None
        self.value = None

    def main(self):
        self.ident = _thread.get_ident()
        self.gate.acquire()
        self.sim.current = self
        try:
            sys.settrace(self.sim.trace)
            self.value = ('value', self.fn())
        except Killed as e:
            self.value = ('killed', str(e))
        except BaseException as e:
            self.value = ('raised', e)
        finally:
            sys.settrace(None)
            self.done = True
            self.sim.ended(self)


class Schedule:
    """
    policy: {'kind': 'random', 'p': ...} every line is a switch with probability p
            {'kind': 'sites', 'one_in': n} one in n source lines is a switch whenever executed
            {'kind': 'pct', 'points': [...]} priorities, changed at the given step numbers
            {'kind': 'explicit', 'switches': [[thread, its line count, how, to], ...]} a recorded
            schedule; where it says nothing, threads go on, or give way in order
    """

    def __init__(self, rng, policy, deep=True, limit=4_000_000):
        self.rng, self.policy, self.deep, self.limit = rng, policy, deep, limit
        self.threads, self.current = [], None
        self.steps = self.switches = 0
        self.log = []                   # (step, thread) of each switch
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.failure = None
        self.kind = policy['kind']
        self.points = list(policy.get('points', []))
        self.p = policy.get('p', 0)
        self.salt = rng.randrange(1 << 30)
        self.sites = {}
        self.pairs = set()
        self.next_at = self._gap()
        self.told = {(a, b, c): to for a, b, c, to in policy.get('switches', [])}

    def _gap(self):
        if self.kind != 'random':
            return None
        # geometric
        import math
        u = max(self.rng.random(), 1e-12)
        return self.steps + 1 + int(math.log(u) / math.log(1 - self.p))

    def add(self, name, fn):
        t = Thread(self, name, fn)
        t.priority, t.index = self.rng.random(), len(self.threads)
        self.threads.append(t)
        return t

    def mine(self):
        return self.current is not None and self.current.ident == _thread.get_ident()

    # -- running
    def run(self):
        simlock.SIM = self
        try:
            for t in self.threads:
                _thread.start_new_thread(t.main, ())
            first = self._choose(None, (-1, 0, 'start'))
            self.log.append([-1, 0, 'start', first.index])
            self._pass_to(first)
            self.over.acquire()
        finally:
            simlock.SIM = None
        if self.failure:
            raise self.failure

    def runnable(self, but=None):
        return [t for t in self.threads if not t.done and t.waiting is None and not t.stalled
                and t is not but]

    def _choose(self, but, how=None):
        r = self.runnable(but)
        if not r:
            return None
        if self.kind == 'explicit':
            to = self.told.get(how)
            return next((t for t in r if t.index == to), r[0])
        if self.kind == 'pct':
            return max(r, key=lambda t: t.priority)
        return r[self.rng.randrange(len(r))]

    def _pass_to(self, t):
        self.current = t
        t.gate.release()

    def _switch(self, to, how='line'):
        me = self.current
        if to is me or to is None:
            return
        self.switches += 1
        self.log.append([me.index, me.lines, how, to.index])
        self._pass_to(to)
        me.gate.acquire()
        self.current = me
        if self.failure is not None:
            raise Killed('the schedule was abandoned')

    def ended(self, t):
        how = (t.index, t.lines, 'end')
        nxt = self._choose(t, how)
        if nxt is None:
            # whoever is stalled goes on now
            for s in self.threads:
                if s.stalled and not s.done:
                    s.stalled = False
            nxt = self._choose(t, how)
        if nxt is None and any(not x.done for x in self.threads):
            nxt = self._timed_out()
        if nxt is None:
            left = [x for x in self.threads if not x.done]
            if left and self.failure is None:
                self._deadlock(left)
                nxt = self._free_all()
        if nxt is None:
            left = [x for x in self.threads if not x.done]
            if left:
                self._pass_to(left[0])
            else:
                self.over.release()
            return
        self.log.append([*how, nxt.index])
        self._pass_to(nxt)

    def _timed_out(self):
        for x in self.threads:
            if not x.done and x.waiting is not None and x.timed:
                x.waiting = None
                return x
        return None

    def _deadlock(self, left):
        self.failure = Violation('threads wait for each other forever: ' + ', '.join(
            f"{x.name} waits for a lock held by "
            f"{x.waiting._owner.name if x.waiting is not None and x.waiting._owner else 'nobody'}"
            f"{' (dead)' if x.waiting is not None and x.waiting._owner and x.waiting._owner.done else ''}"
            for x in left), 'deadlock')

    def _free_all(self):
        """abandon the schedule: everyone still waiting is woken to die"""
        for x in self.threads:
            x.waiting = None
        return next((x for x in self.threads if not x.done), None)

    # -- locks
    def wait(self, lock, timed):
        me = self.current
        me.waiting, me.timed = lock, timed
        how = (me.index, me.lines, 'wait')
        to = self._choose(me, how)
        if to is None:
            for s in self.threads:
                if s.stalled and not s.done:
                    s.stalled = False
            to = self._choose(me, how)
        if to is None:
            to = self._timed_out()
            if to is me:
                return
        if to is None:
            self._deadlock([x for x in self.threads if not x.done])
            self._free_all()
            raise Killed('deadlock')
        self._switch(to, 'wait')

    def freed(self, lock):
        for t in self.threads:
            if t.waiting is lock:
                t.waiting = None

    # -- lines
    def trace(self, frame, event, arg):
        k = faults.under_test(frame.f_code.co_filename)
        if k == 1 or (k == 2 and self.deep):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event != 'line':
            return self.line
        self.steps += 1
        me = self.current
        me.lines += 1
        if self.steps > self.limit and self.failure is None:
            self.failure = Violation(f"no end after {self.steps} lines", 'hang')
            self._free_all()
        if self.failure is not None:
            raise Killed('the schedule was abandoned')
        if me.kill_at is not None and me.lines >= me.kill_at and not faults.atomic_line(frame):
            me.kill_at = None
            me.killed = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
            raise Killed(me.killed)
        if me.stall_at is not None and me.lines >= me.stall_at:
            me.stall_at = None
            to = self._choose(me, (me.index, me.lines, 'stall'))
            if to is not None:
                me.stalled = True
                self._switch(to, 'stall')
                return self.line
        kind = self.kind
        if kind == 'explicit':
            to = self.told.get((me.index, me.lines, 'line'))
            if to is not None:
                self._switched_at(frame, next((t for t in self.runnable(me) if t.index == to),
                                              None))
        elif kind == 'random':
            if self.steps >= self.next_at:
                self.next_at = self._gap()
                self._switched_at(frame, self._choose(me))
        elif kind == 'sites':
            key = (frame.f_code.co_filename, frame.f_lineno)
            hit = self.sites.get(key)
            if hit is None:
                from .kernel import Rng
                r = Rng(self.salt, os.path.basename(key[0]), key[1])
                hit = self.sites[key] = [r.random() * self.policy['one_in'] < 1, 0]
            if hit[0]:
                hit[1] += 1
                # a hot line isn't a switch forever
                if hit[1] < 40 or hit[1] % 97 == 0:
                    self._switched_at(frame, self._choose(me))
        elif kind == 'pct' and self.points and self.steps >= self.points[0]:
            self.points.pop(0)
            me.priority = -self.steps
            self._switched_at(frame, self._choose(None))
        return self.line

    def _switched_at(self, frame, to):
        if to is None or to is self.current:
            return
        self.pairs.add(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")
        self._switch(to)
