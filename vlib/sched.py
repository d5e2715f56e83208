"""A seeded cooperative scheduler for real threads: exactly one thread runs at a time and the running thread may be exchanged at
every line of the code under test (sys.settrace) and at every lock operation.  Also a linearizability checker for the histories."""
import _thread
import sys
import threading

from vlib.locks import RealLock, Registry, MonLock, get_ident


class Deadlock(BaseException):
    pass


class Stuck(Exception):
    """No thread made progress, for a reason the scheduler cannot see."""


class Sched(object):
    def __init__(self, rng, p, match, patience=60):
        self.rng, self.p, self.match, self.patience = rng, p, match, patience
        self.clock = 0
        self.switches = 0
        self.points = 0
        self.trace = []
        self.deadlock = None
        self.me = {}
        self.blocked = {}
        self.current = None

    # -------------------------------------------------------- running
    def run(self, bodies):
        n = len(bodies)
        self.sems = [RealLock() for _ in range(n)]
        for s in self.sems:
            s.acquire()
        self.live = set(range(n))
        self.failures = {}
        done = RealLock()
        done.acquire()
        self.done = done
        for i, b in enumerate(bodies):
            _thread.start_new_thread(self.body, (i, b))
        self.hand(self.rng.choice(sorted(self.live)))
        if not done.acquire(True, self.patience):
            raise Stuck("no progress in {0} s".format(self.patience))
        for i in sorted(self.failures):
            raise self.failures[i]

    def body(self, i, f):
        self.sems[i].acquire()
        self.me[get_ident()] = i
        sys.settrace(self.tracer)
        try:
            f()
        except Deadlock:
            pass
        except BaseException as x:
            self.failures[i] = x
        finally:
            sys.settrace(None)
            self.live.discard(i)
            if not self.live:
                self.done.release()
            else:
                self.move(i)

    def hand(self, j):
        self.current = j
        self.sems[j].release()

    def ready(self):
        return [j for j in sorted(self.live) if not (j in self.blocked and self.blocked[j].owner is not None)]

    def move(self, i, others=False):
        """Let another thread run; thread i waits (unless it has ended)."""
        c = self.ready()
        if others and len(c) > 1:
            c = [j for j in c if j != i]
        if not c:
            self.deadlock = dict((j, id(l)) for j, l in self.blocked.items())
            for j in sorted(self.live):
                if j != i:
                    self.hand(j)
            if i in self.live:
                raise Deadlock()
            return
        j = self.rng.choice(c)
        if j == i:
            return
        self.switches += 1
        self.trace.append(j)
        self.hand(j)
        if i in self.live:
            self.sems[i].acquire()
            if self.deadlock is not None:
                raise Deadlock()

    # -------------------------------------------------------- instrumentation
    def tracer(self, frame, event, arg):
        if self.match(frame.f_code):
            self.point()
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def point(self):
        i = self.me.get(get_ident())
        if i is None or self.deadlock is not None:
            return
        self.points += 1
        if self.rng.random() < self.p:
            self.move(i)

    def tick(self):
        self.clock += 1
        return self.clock


class CoopLock(MonLock):
    """A lock whose waiting is done by the scheduler."""
    def __init__(self, reg):
        MonLock.__init__(self, reg)
        self.plain = MonLock.acquire

    def acquire(self, blocking=True, timeout=-1):
        s = self.reg.sched
        i = s.me.get(get_ident()) if s is not None else None
        if i is None:
            return MonLock.acquire(self, blocking, timeout)
        s.point()
        if self.owner is not None and self.owner != get_ident() and blocking:
            self.reg.contended += 1
            while self.owner is not None:
                s.blocked[i] = self
                s.move(i, True)
                s.blocked.pop(i, None)
        got = MonLock.acquire(self, blocking, timeout)
        return got

    def release(self):
        MonLock.release(self)
        s = self.reg.sched
        if s is not None and s.me.get(get_ident()) is not None:
            s.point()


class CoopRLock(CoopLock):
    reentrant = True


class watch(object):
    """Engines built inside get locks driven by reg.sched."""
    def __init__(self, reg=None):
        self.reg = reg or Registry()
        if not hasattr(self.reg, "sched"):
            self.reg.sched = None

    def __enter__(self):
        reg = self.reg
        threading.Lock = lambda: CoopLock(reg)
        threading.RLock = lambda: CoopRLock(reg)
        return reg

    def __exit__(self, *exc):
        from vlib.locks import RealRLock
        threading.Lock, threading.RLock = RealLock, RealRLock
        return False


# ------------------------------------------------------------ linearizability
def linearizable(history, start, apply, same=lambda a, b: a == b, budget=200000):
    """history: [(op, result, invoked, returned)].  apply(state, op) -> (state, result).  True, False, or None when the budget ran out."""
    n = len(history)
    full = (1 << n) - 1
    seen = set()
    left = [budget]

    def go(done, state):
        if done == full:
            return True
        left[0] -= 1
        if left[0] < 0:
            return None
        k = (done, repr(state))
        if k in seen:
            return False
        seen.add(k)
        first = min(history[i][3] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if not done >> i & 1 and history[i][2] < first:
                s, r = apply(state, history[i][0])
                if same(r, history[i][1]):
                    z = go(done | 1 << i, s)
                    if z or z is None:
                        return z
        return False
    return go(0, start)
