"""Threads that take turns: every switch is a decision of the session, so the schedule is an input."""
import _thread
import threading

Real = _thread.allocate_lock
REAL = threading.Lock, threading.RLock


class Kill(BaseException):
    pass


class Task(object):
    def __init__(self, fn, i):
        self.fn, self.i = fn, i
        self.baton = Real()
        self.baton.acquire()
        self.done, self.error, self.waits, self.value = False, None, None, None


class Sched(object):
    def __init__(self, S, budget):
        self.S, self.budget = S, budget
        self.tasks, self.cur, self.dead, self.deadlock, self.n, self.switches = [], None, False, False, 0, 0
        self.main = Real()
        self.main.acquire()

    def _pick(self, k):
        self.n += 1
        return self.S.pick('sw%d' % self.n, k) if k > 1 else 0

    def _ready(self, but=None):
        return [t for t in self.tasks if not t.done and t is not but and (t.waits is None or t.waits.owner is None)]

    def point(self):
        """here another thread may go on"""
        if self.dead:
            raise Kill()
        me = self.cur
        if me is None or not self.budget:
            return
        others = self._ready(me)
        k = self._pick(1 + len(others))
        if k:
            self.budget -= 1
            self.switches += 1
            self._to(others[k - 1], me)

    def _to(self, t, me):
        self.cur = t
        t.baton.release()
        if me is not None:
            me.baton.acquire()
            if self.dead:
                raise Kill()

    def wait(self, lock):
        me = self.cur
        me.waits = lock
        others = self._ready(me)
        if not others:
            self.deadlock = True
            raise Kill()
        self._to(others[self._pick(len(others))], me)
        me.waits = None

    def _body(self, t):
        t.baton.acquire()
        try:
            if not self.dead:
                t.value = t.fn()
        except BaseException as e:
            t.error = e
            if not isinstance(e, Exception):
                self.dead = True
        t.done = True
        left = self._ready()
        if self.dead or not left:
            if not self.dead and [x for x in self.tasks if not x.done]:
                self.deadlock = True
            self.cur = None
            self.main.release()
        else:
            try:
                k = self._pick(len(left))
            except BaseException as e:
                t.error = e
                self.dead = True
                self.cur = None
                self.main.release()
                return
            self._to(left[k], None)

    def run(self, fns):
        """-> results; an exception of a thread is its result"""
        self.tasks = [Task(f, i) for i, f in enumerate(fns)]
        mine = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = REAL
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for th in ths:
            th.start()
        threading.Lock, threading.RLock = mine
        first = self.tasks[self._pick(len(self.tasks))]
        try:
            self._to(first, None)
            self.main.acquire()
        finally:
            self.dead = True
            for t in self.tasks:
                if not t.done:
                    t.baton.release()
            for th in ths:
                th.join(5)
        for t in self.tasks:
            if t.error is not None and not isinstance(t.error, (Exception, Kill)):
                raise t.error
        return [t.error if t.error is not None else t.value for t in self.tasks]


class Lock(object):
    """stands in for threading.Lock and RLock"""
    sched = None
    again = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = Lock.sched
        me = s.cur if s else 'main'
        if s:
            s.point()
        while self.owner is not None and not (self.again and self.owner is me):
            if not blocking or timeout == 0:
                return False
            if not s or self.owner is me:
                raise RuntimeError('deadlock')
            s.wait(self)
        self.owner = me if me is not None else 'main'
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
        if Lock.sched:
            Lock.sched.point()

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    again = True


class Locks(object):
    """with Locks(sched): threads of warcio use the locks above"""

    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        self.old = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = Lock, RLock
        Lock.sched = self.sched
        return self

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.old
        Lock.sched = None
