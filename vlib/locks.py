"""Instrumented locks: engines built inside `watch()` get locks that record who holds them, so that a lock left held, a
self-deadlock and a cycle in the acquisition order are seen without waiting for a hang."""
import threading

RealLock, RealRLock, get_ident = threading.Lock, threading.RLock, threading.get_ident


class SelfDeadlock(BaseException):
    """A thread asked for a lock which it already holds."""


class Registry(object):
    def __init__(self):
        self.locks = []
        self.held = {}            # thread -> [locks]
        self.edges = {}           # (id held, id wanted) -> count
        self.acquisitions = 0
        self.contended = 0
        self.hook = None          # called before every acquisition with the lock

    def busy(self):
        return [l for l in self.locks if l.owner is not None]

    def cycle(self):
        """A pair of locks taken in both orders, directly or through others."""
        reach = {}
        for a, b in self.edges:
            reach.setdefault(a, set()).add(b)
        for a in list(reach):
            todo, seen = list(reach[a]), set()
            while todo:
                x = todo.pop()
                if x == a:
                    return a
                if x not in seen:
                    seen.add(x)
                    todo.extend(reach.get(x, ()))
        return None


class MonLock(object):
    reentrant = False

    def __init__(self, reg):
        self.reg, self.owner, self.depth = reg, None, 0
        self.real = RealLock()
        reg.locks.append(self)

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        reg = self.reg
        if self.owner == me:
            if self.reentrant:
                self.depth += 1
                return True
            if blocking and timeout < 0:
                raise SelfDeadlock("lock requested again by the thread that holds it")
        mine = reg.held.setdefault(me, [])
        for l in mine:
            reg.edges[(id(l), id(self))] = reg.edges.get((id(l), id(self)), 0) + 1
        if reg.hook is not None:
            reg.hook(self)
        got = self.real.acquire(False)
        if not got:
            reg.contended += 1
            if not blocking:
                return False
            got = self.real.acquire(True, timeout)
            if not got:
                return False
        self.owner, self.depth = me, 1
        reg.acquisitions += 1
        mine.append(self)
        return True

    def release(self):
        if self.depth > 1 and self.owner == get_ident():
            self.depth -= 1
            return
        mine = self.reg.held.get(self.owner, [])
        if self in mine:
            mine.remove(self)
        self.owner, self.depth = None, 0
        self.real.release()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class MonRLock(MonLock):
    reentrant = True


class watch(object):
    """with watch() as reg: build engines."""
    def __init__(self, reg=None):
        self.reg = reg or Registry()

    def __enter__(self):
        reg = self.reg
        threading.Lock = lambda: MonLock(reg)
        threading.RLock = lambda: MonRLock(reg)
        return reg

    def __exit__(self, *exc):
        threading.Lock, threading.RLock = RealLock, RealRLock
        return False
