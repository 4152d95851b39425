"""Controlled scheduler: real threads of the code under test, one runs at a time, every switch is a recorded choice.

Scheduling points: every source line of the given files, and every operation on the modelled synchronisation primitives.
`explore` enumerates all schedules with at most `bound` preemptions by depth-first search over the choices (stateless, re-executed from the start)."""
import sys
import _thread


class Stop(BaseException):
    pass


class T:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.cond = None
        self.exc = None
        self.ident = None


class Sched:
    def __init__(self, files, max_steps=20000):
        self.files = tuple(files)
        self.threads = []
        self.cur = None
        self.prefix = []
        self.trace = []          # (choice, enabled, running-before or None)
        self.steps = 0
        self.max_steps = max_steps
        self.main = _thread.allocate_lock()
        self.dead = False
        self.deadlock = False
        self.overrun = False
        self.quiet = False       # running thread is not preempted

    # -- called from controlled threads
    def me(self):
        i = _thread.get_ident()
        for t in self.threads:
            if t.ident == i:
                return t
        return None

    def enabled(self, t):
        return not t.done and (t.cond is None or t.cond())

    def pick(self, cur):
        if self.quiet and cur is not None and self.enabled(cur):
            return cur
        en = [t.i for t in self.threads if self.enabled(t)]
        if not en:
            return None
        order = ([cur.i] if cur is not None and cur.i in en else []) + [x for x in en if cur is None or x != cur.i]
        if len(en) == 1:
            return self.threads[order[0]]
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((c, len(order), bool(cur is not None and cur.i in en)))
        return self.threads[order[c]]

    def point(self):
        t = self.cur
        if t is None or t.ident != _thread.get_ident():
            return
        if self.dead:
            raise Stop()
        self.steps += 1
        if self.steps > self.max_steps:
            self.overrun = True
            self.finish()
            raise Stop()
        self.switch(t)

    def switch(self, t):
        n = self.pick(t)
        if n is t:
            t.cond = None
            return
        if n is None:
            self.deadlock = True
            self.finish()
            raise Stop()
        self.cur = n
        n.cond = None
        n.sem.release()
        t.sem.acquire()
        if self.dead:
            raise Stop()

    def block(self, cond):
        t = self.cur
        if t is None or t.ident != _thread.get_ident():
            raise RuntimeError("blocking outside of the scheduler")
        if self.dead:
            raise Stop()
        self.steps += 1
        t.cond = cond
        self.switch(t)

    def finish(self):
        self.dead = True
        for t in self.threads:
            if not t.done and t is not self.cur:
                t.sem.release()

    def exit(self, t):
        t.done = True
        if self.dead:
            if all(x.done for x in self.threads):
                self.main.release()
            return
        n = self.pick(None)
        if n is None:
            if all(x.done for x in self.threads):
                self.main.release()
            else:
                self.deadlock = True
                self.dead = True
                self.cur = None
                for x in self.threads:
                    if not x.done:
                        x.sem.release()
            return
        self.cur = n
        n.cond = None
        n.sem.release()

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.endswith(self.files):
            return None
        def loc(f, e, a):
            if e == "line":
                self.point()
            return loc
        return loc

    def body(self, t):
        t.ident = _thread.get_ident()
        self.main.release()
        t.sem.acquire()
        try:
            if self.dead:
                return
            sys.settrace(self.tracer)
            try:
                t.fn()
            finally:
                sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        finally:
            self.exit(t)

    def run(self, fns, prefix):
        self.prefix = prefix
        self.threads = [T(i, f) for i, f in enumerate(fns)]
        self.main.acquire()
        for t in self.threads:
            _thread.start_new_thread(self.body, (t,))
            self.main.acquire()
        n = self.pick(None)
        self.cur = n
        n.sem.release()
        self.main.acquire()


class Prims:
    """stand-in for the threading module, bound to a scheduler"""

    def __init__(self, sched, real):
        s = sched
        self._real = real

        class Lock:
            def __init__(self):
                self.owner = None

            def acquire(self, blocking=True, timeout=-1):
                s.point()
                if self.owner is not None:
                    if not blocking:
                        return False
                    s.block(lambda: self.owner is None)
                self.owner = s.cur
                return True

            def release(self):
                if self.owner is None:
                    raise RuntimeError("release unlocked lock")
                self.owner = None
                if not s.dead:
                    s.point()

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                self.acquire()
                return True

            def __exit__(self, *a):
                self.owner = None
                if not s.dead and a[0] is not Stop:
                    s.point()

        class RLock(Lock):
            def __init__(self):
                self.owner, self.n = None, 0

            def acquire(self, blocking=True, timeout=-1):
                s.point()
                if self.owner is not None and self.owner is not s.cur:
                    if not blocking:
                        return False
                    s.block(lambda: self.owner is None)
                self.owner = s.cur
                self.n += 1
                return True

            def release(self):
                self.n -= 1
                if self.n == 0:
                    self.owner = None
                if not s.dead:
                    s.point()

            def __exit__(self, *a):
                self.n -= 1
                if self.n == 0:
                    self.owner = None

        class Event:
            def __init__(self):
                self.flag = False

            def set(self):
                s.point()
                self.flag = True

            def clear(self):
                s.point()
                self.flag = False

            def is_set(self):
                s.point()
                return self.flag

            isSet = is_set

            def wait(self, timeout=None):
                s.point()
                if timeout is not None:
                    return self.flag
                if not self.flag:
                    s.block(lambda: self.flag)
                return True

        class Condition:
            def __init__(self, lock=None):
                self.lock = lock or RLock()
                self.waiters = []
                self.acquire, self.release = self.lock.acquire, self.lock.release

            def __enter__(self):
                return self.lock.__enter__()

            def __exit__(self, *a):
                return self.lock.__exit__(*a)

            def wait(self, timeout=None):
                tok = [False]
                self.waiters.append(tok)
                n = getattr(self.lock, "n", None)
                self.lock.owner = None
                if n is not None:
                    self.lock.n = 0
                s.block(lambda: (tok[0] or timeout is not None) and self.lock.owner is None)
                self.lock.owner = s.cur
                if n is not None:
                    self.lock.n = n
                return tok[0]

            def wait_for(self, pred, timeout=None):
                r = pred()
                while not r:
                    self.wait(timeout)
                    r = pred()
                    if timeout is not None:
                        break
                return r

            def notify(self, n=1):
                for w in self.waiters[:n]:
                    w[0] = True
                del self.waiters[:n]

            def notify_all(self):
                self.notify(len(self.waiters))

            notifyAll = notify_all

        class Semaphore:
            def __init__(self, value=1):
                self.v = value

            def acquire(self, blocking=True, timeout=None):
                s.point()
                if self.v <= 0:
                    if not blocking or timeout is not None:
                        return False
                    s.block(lambda: self.v > 0)
                self.v -= 1
                return True

            def release(self, n=1):
                self.v += n
                if not s.dead:
                    s.point()

            __enter__ = acquire

            def __exit__(self, *a):
                self.v += 1

        self.Lock, self.RLock, self.Event, self.Condition, self.Semaphore, self.BoundedSemaphore = Lock, RLock, Event, Condition, Semaphore, Semaphore

    def __getattr__(self, n):
        return getattr(self._real, n)


def explore(make, check, bound, part=0, parts=1, limit=None):
    """make() -> (sched, fns); runs every schedule with at most `bound` preemptions (of the subtrees below the
    default schedule: those numbered part mod parts); check(sched, schedule). Returns (executions, steps, complete)."""
    stack = [[]]
    old = sys.gettrace()
    sys.settrace(lambda *a: None)  # keeps tracing switched on between executions
    try:
        return _explore(make, check, bound, part, parts, limit, stack)
    finally:
        sys.settrace(old)


def _explore(make, check, bound, part, parts, limit, stack):
    runs = steps = 0
    while stack:
        prefix = stack.pop()
        s, fns = make()
        s.run(fns, prefix)
        runs += 1
        steps += s.steps
        check(s, prefix)
        pre = [0]
        for c, n, r in s.trace:
            pre.append(pre[-1] + (1 if c and r else 0))
        for k in range(len(s.trace) - 1, len(prefix) - 1, -1):
            c, n, r = s.trace[k]
            if pre[k] + (1 if r else 0) > bound:
                continue
            head = [x[0] for x in s.trace[:k]]
            for alt in range(1, n):
                stack.append(head + [alt])
        if runs == 1:
            stack = stack[part::parts]
        if limit and runs >= limit:
            return runs, steps, False
    return runs, steps, True
