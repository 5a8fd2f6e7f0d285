"""A deterministic scheduler for the threads of an engine: locks and lines of the engine's state code are the only places
where another thread can take over, and a seeded generator decides where it does. Import before the engine."""
import sys, threading, _thread

CURRENT = None       # the scheduler in charge, if any

class Stuck(BaseException): pass

class CLock:
    reentrant = False
    def __init__(self):
        self.owner, self.count = None, 0
    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = s.me() if s is not None else None
        if me is None:
            if self.owner is not None and not (self.reentrant and self.owner == "main"):
                if not blocking or timeout >= 0: return False
                raise Stuck("lock taken outside the schedule")
            self.owner, self.count = "main", self.count + 1
            return True
        s.point()
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking or timeout == 0: return False
            s.block(self, timeout > 0)
            if timeout > 0 and self.owner is not None: return False
        self.owner, self.count = me, self.count + 1
        return True
    def release(self):
        if self.owner is None: raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0: self.owner = None
        s = CURRENT
        if s is not None and s.me() is not None and not s.stuck: s.point()
    def locked(self): return self.owner is not None
    def __enter__(self):
        self.acquire()
        return self
    def __exit__(self, *a): self.release()
    acquire_lock, release_lock, locked_lock = acquire, release, locked
    def _at_fork_reinit(self): self.owner, self.count = None, 0

class CRLock(CLock):
    reentrant = True
    def _is_owned(self): return self.owner is not None
    def _release_save(self):
        x = (self.owner, self.count)
        self.owner, self.count = None, 0
        return x
    def _acquire_restore(self, x):
        self.acquire()
        self.owner, self.count = x

def install():
    threading.Lock = CLock
    threading.RLock = CRLock
    threading._allocate_lock = CLock

class Thread:
    def __init__(self, n, body):
        self.n, self.body = n, body
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.waiting, self.timed, self.done = None, False, False

class Sched:
    """Runs bodies (callables) to the end, one at a time, switching where the random generator says."""
    def __init__(self, rng, switch, files):
        self.rng, self.switch, self.files = rng, switch, files
        self.byid = {}
        self.stuck = False
        self.switches = 0
        self.over = _thread.allocate_lock()
        self.over.acquire()
    def me(self): return self.byid.get(_thread.get_ident())
    def runnable(self): return [t for t in self.threads if not t.done and (t.waiting is None or t.waiting.owner is None or t.timed or self.stuck)]
    def run(self, bodies):
        global CURRENT
        self.threads = [Thread(i, b) for i, b in enumerate(bodies)]
        CURRENT = self
        for t in self.threads: _thread.start_new_thread(self.main, (t,))
        self.rng.choice(self.threads).baton.release()
        self.over.acquire()
        CURRENT = None
    def main(self, t):
        t.baton.acquire()
        self.byid[_thread.get_ident()] = t
        sys.settrace(self.trace)
        try: t.body()
        except Stuck: pass
        finally:
            sys.settrace(None)
            t.done = True
            rest = self.runnable()
            if not rest and any(not x.done for x in self.threads):
                self.stuck = True
                rest = self.runnable()
            del self.byid[_thread.get_ident()]
            if rest: self.rng.choice(rest).baton.release()
            else: self.over.release()
    def trace(self, frame, event, arg):
        return self.line if frame.f_code.co_filename in self.files else None
    def line(self, frame, event, arg):
        if event == "line": self.point()
        return self.line
    def give(self, me, to):
        if to is me: return
        self.switches += 1
        to.baton.release()
        me.baton.acquire()
    def point(self):
        """Another thread may take over here."""
        me = self.me()
        if me is None: return
        if self.stuck: raise Stuck()
        if self.rng.random() >= self.switch: return
        tr = sys.gettrace(); sys.settrace(None)
        try: self.give(me, self.rng.choice(self.runnable()))
        finally: sys.settrace(tr)
        if self.stuck: raise Stuck()
    def block(self, lock, timed):
        me = self.me()
        tr = sys.gettrace(); sys.settrace(None)
        try:
            me.waiting, me.timed = lock, timed
            rest = self.runnable()
            if not rest:
                self.stuck = True
                raise Stuck()
            self.give(me, self.rng.choice(rest))
        finally:
            me.waiting = None
            sys.settrace(tr)
        if self.stuck: raise Stuck()
