"""
Locks the simulator can see. `install()` replaces the lock factories of `threading`, so that
whatever pynare (and autograd) create afterwards cooperates with the simulated scheduler:
waiting for a lock hands control to another simulated thread, and a cycle of waits is found.
Outside a simulated schedule they are ordinary locks.
"""
import _thread
import threading

SIM = None          # the schedule being simulated, if any
_real_lock, _real_rlock = _thread.allocate_lock, threading.RLock


class SimLock:
    reentrant = False

    def __init__(self):
        self._real = _real_rlock() if self.reentrant else _real_lock()
        self._owner, self._count = None, 0

    def _sim(self):
        return SIM if SIM is not None and SIM.mine() else None

    def acquire(self, blocking=True, timeout=-1):
        sim = self._sim()
        if sim is None:
            return self._real.acquire(blocking, timeout)
        me = sim.current
        tries = 0
        while True:
            if self._owner is None:
                self._owner, self._count = me, 1
                return True
            if self.reentrant and self._owner is me:
                self._count += 1
                return True
            if not blocking or (timeout is not None and timeout >= 0 and tries):
                return False
            tries += 1
            sim.wait(self, timed=timeout is not None and timeout >= 0)

    def release(self):
        sim = self._sim()
        if sim is None:
            return self._real.release()
        if self._owner is None or (self.reentrant and self._owner is not sim.current):
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            sim.freed(self)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self._owner is not None or (hasattr(self._real, 'locked') and
                                           self._real.locked())

    # what `threading.Condition` needs
    def _is_owned(self):
        sim = self._sim()
        if sim is not None:
            return self._owner is sim.current
        if self.reentrant:
            return self._real._is_owned()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def _release_save(self):
        sim = self._sim()
        if sim is None:
            if self.reentrant:
                return self._real._release_save()
            self._real.release()
            return None
        n, self._count, self._owner = self._count, 0, None
        sim.freed(self)
        return n

    def _acquire_restore(self, state):
        sim = self._sim()
        if sim is None:
            if self.reentrant:
                self._real._acquire_restore(state)
            else:
                self._real.acquire()
            return
        self.acquire()
        self._count = state

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True

    def acquire(self, blocking=True, timeout=-1):
        return SimLock.acquire(self, blocking, timeout)


def install():
    threading.Lock, threading.RLock = SimLock, SimRLock
