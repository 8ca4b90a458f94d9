"""
Run python threads one at a time, switching only where told: at lines of the code under test, by a seeded generator.
Every interleaving is reproducible from its seed. Locks of the code under test are replaced by ones that give way.
"""
import os
import random
import sys
import threading
import time

_real_rlock = type(threading.RLock())
_real_lock = type(threading.Lock())


class Deadlock(BaseException):
    pass


class SchedLock(object):
    """reentrant lock that lets the scheduler run someone else instead of blocking"""

    def __init__(self, reentrant=True):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant
        self.contended = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        sched = Sched.running
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            self.contended += 1
            if sched is None or me not in sched.index:
                time.sleep(0.001)
            else:
                sched.blocked(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def replace_locks(modules):
    """-> list of (holder, name, original): module level locks of the code under test now give way"""
    undo = []
    new = {}
    for mod in modules:
        for name, value in list(vars(mod).items()):
            if isinstance(value, (_real_rlock, _real_lock)):
                if id(value) not in new:
                    new[id(value)] = SchedLock(isinstance(value, _real_rlock))
                undo.append((mod, name, value))
                setattr(mod, name, new[id(value)])
    return undo, list(new.values())


def restore_locks(undo):
    for mod, name, value in undo:
        setattr(mod, name, value)


class Sched(object):
    running = None

    def __init__(self, seed, prefix, rate, limit=60.0):
        self.rng = random.Random(seed)
        self.prefix = prefix
        self.rate = rate
        self.sems = []
        self.index = {}
        self.alive = set()
        self.waiting = set()  # BLOCKED ON A LOCK
        self.current = None
        self.steps = 0
        self.switches = 0
        self.trail = []
        self.dead = False
        self.limit = limit

    def run(self, targets):
        """-> None, or what went wrong"""
        self.alive = set(range(len(targets)))
        self.sems = [threading.Semaphore(0) for _ in targets]
        threads = []
        for i, t in enumerate(targets):
            th = threading.Thread(target=self._main, args=(i, t), daemon=True)
            threads.append(th)
        Sched.running = self
        try:
            for th in threads:
                th.start()
            self.current = self.rng.randrange(len(targets))
            self.sems[self.current].release()
            deadline = time.time() + self.limit
            for th in threads:
                th.join(max(0.1, deadline - time.time()))
            if any(th.is_alive() for th in threads):
                self.dead = True
                return "threads never finished"
            return "deadlock" if self.dead else None
        finally:
            Sched.running = None

    def _main(self, i, target):
        self.index[threading.get_ident()] = i
        self._wait(i)
        sys.settrace(self._trace)
        try:
            target()
        except Deadlock:
            pass
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            if self.alive:
                self._hand_over(i)

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line":
            self.steps += 1
            if self.rng.random() < self.rate:
                self.switch()
        return self._line

    def _choose(self, me):
        others = sorted(self.alive - {me} - self.waiting)
        if not others:
            others = sorted(self.alive - {me})
        return self.rng.choice(others) if others else None

    def switch(self):
        me = self.index.get(threading.get_ident())
        if me is None or self.current != me:
            return
        nxt = self._choose(me)
        if nxt is None:
            return
        self.switches += 1
        self.trail.append((self.steps, nxt))
        self.current = nxt
        self.sems[nxt].release()
        self._wait(me)

    def _hand_over(self, me):
        nxt = self._choose(me)
        if nxt is not None:
            self.current = nxt
            self.sems[nxt].release()

    def blocked(self, lock):
        me = self.index[threading.get_ident()]
        self.waiting.add(me)
        try:
            if self.waiting >= self.alive:
                self.dead = True
                for s in self.sems:
                    s.release()
            if self.dead:
                raise Deadlock()
            self.switch()
        finally:
            self.waiting.discard(me)

    def _wait(self, me):
        while True:
            before = self.steps
            if self.sems[me].acquire(timeout=5):
                break
            if self.dead:
                break
            if self.steps == before and self.current != me and self.current is not None:
                # the one running is stuck in something we do not control: go on without it
                self.current = me
                break
        if self.dead:
            raise Deadlock()
        self.current = me
