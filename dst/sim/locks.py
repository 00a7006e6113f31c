"""Locks that the scheduler can see.  Outside simulated threads they are ordinary locks."""
import _thread
import threading

_real_Lock = _thread.allocate_lock
_real_RLock = threading.RLock
current_sched = None  # set by sched.Sched.run


def _sim_tid():
    s = current_sched
    if s is None:
        return None, None
    t = s.by_ident.get(_thread.get_ident())
    return (s, t) if t is not None else (None, None)


class SimLock:
    def __init__(self):
        self._l = _real_Lock()

    def acquire(self, blocking=True, timeout=-1):
        s, t = _sim_tid()
        if s is None:
            return self._l.acquire(blocking, timeout)
        s.point("lock")
        while not self._l.acquire(False):
            if not blocking:
                return False
            s.block_on(t, self)
        return True

    def release(self):
        self._l.release()
        s, t = _sim_tid()
        if s is not None:
            s.unblock(self)
            s.point("unlock")

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_Lock()


class SimRLock:
    def __init__(self):
        self._l = _real_Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        s, t = _sim_tid()
        if s is None:
            r = self._l.acquire(blocking, timeout)
        else:
            s.point("lock")
            r = True
            while not self._l.acquire(False):
                if not blocking:
                    return False
                s.block_on(t, self)
        if r:
            self._owner, self._count = me, 1
        return r

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count:
            return
        self._owner = None
        self._l.release()
        s, t = _sim_tid()
        if s is not None:
            s.unblock(self)
            s.point("unlock")

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._l.release()
        s, t = _sim_tid()
        if s is not None:
            s.unblock(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._l = _real_Lock()
        self._owner, self._count = None, 0


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
