"""Controlled execution of the threads of the code under test.

Exactly one controlled thread runs at a time. Threads give the turn back at yield points:
  * coarse: before acquiring / after releasing a lock created by sd_mecha, around file transfers, between operations
  * lines (optional): before each line executed in sd_mecha (sys.settrace); opcodes (optional)
`policy(runnable, last)` chooses the next thread. A thread that does not come back within `grace` seconds is taken to
be blocked on a primitive the scheduler does not control; the others go on meanwhile.
"""
import os, sys, threading, time, _thread

REPO = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "sd_mecha") + os.sep
_real_lock, _real_rlock = _thread.allocate_lock, threading.RLock
_active = None


class Hang(Exception):
    pass


class CoopLock:
    """Lock whose blocking acquire is visible to the scheduler."""
    def __init__(self, reentrant=False):
        self._l = _real_lock()
        self._reentrant = reentrant
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        s = _active
        t = s.me() if s is not None else None
        if t is None:
            ok = self._l.acquire(blocking, timeout)
        else:
            s.point("acquire")
            while not (ok := self._l.acquire(False)):
                if not blocking:
                    return False
                s.point("blocked", blocked_on=self)
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self._reentrant and self._count > 1:
            self._count -= 1
            return
        self._owner, self._count = None, 0
        self._l.release()
        s = _active
        if s is not None and s.me() is not None:
            s.point("release")

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()


def _from_impl():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(REPO) or str(f.f_globals.get("__name__", "")).startswith("sd_mecha")


def _make_lock():
    return CoopLock() if _from_impl() else _real_lock()


def _make_rlock():
    return CoopLock(reentrant=True) if _from_impl() else _real_rlock()


def install():
    """Replace the lock factories for code of sd_mecha (call before importing it)."""
    threading.Lock = _make_lock
    threading.RLock = _make_rlock


class _T:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = threading.Semaphore(0)
        self.state = "new"        # new, ready, blocked, running, done
        self.blocked_on = None
        self.error = None
        self.result = None
        self.where = "start"


class Sched:
    def __init__(self, policy, *, trace=None, grace=0.3, limit=20000, total=30.0):
        self.policy, self.trace, self.grace, self.limit, self.total = policy, trace, grace, limit, total
        self.threads = []
        self.back = threading.Semaphore(0)
        self.local = threading.local()
        self.steps = 0
        self.log = []
        self.free = False

    def spawn(self, name, fn):
        self.threads.append(_T(name, fn))

    def me(self):
        return getattr(self.local, "t", None)

    # called in controlled threads
    def point(self, where, blocked_on=None):
        t = self.me()
        if t is None or self.free:
            if blocked_on is not None:
                time.sleep(0.001)
            return
        t.where = where
        t.blocked_on = blocked_on
        t.state = "blocked" if blocked_on is not None else "ready"
        self.back.release()
        t.go.acquire()
        t.state = "running"
        t.blocked_on = None

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO):
            return None
        if self.trace == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local_tracer

    def _local_tracer(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame.f_lineno)
        return self._local_tracer

    def _run(self, t):
        self.local.t = t
        t.go.acquire()
        t.state = "running"
        try:
            if self.trace:
                sys.settrace(self._tracer)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            t.error = e
        t.state = "done"
        self.back.release()

    def run(self):
        global _active
        _active = self
        real = []
        try:
            for t in self.threads:
                th = threading.Thread(target=self._run, args=(t,), daemon=True)
                th.start()
                real.append(th)
                t.state = "ready"
            last = None
            deadline = time.time() + self.total
            while True:
                cand = [t for t in self.threads if t.state == "ready" or (t.state == "blocked" and not t.blocked_on.locked())]
                if not cand:
                    running = [t for t in self.threads if t.state == "running"]
                    if not running:
                        if all(t.state == "done" for t in self.threads):
                            break
                        raise Hang("deadlock: " + ", ".join(f"{t.name} blocked at {t.where}" for t in self.threads if t.state == "blocked"))
                    # someone runs uncontrolled (blocked on an unknown primitive or slow): wait for it
                    if not self.back.acquire(timeout=max(0.0, deadline - time.time())):
                        raise Hang("threads did not finish: " + ", ".join(f"{t.name} at {t.where}" for t in running))
                    continue
                t = self.policy(cand, last)
                last = t
                self.steps += 1
                if self.steps > self.limit:
                    self.free = True
                self.log.append(t.name)
                t.state = "running"
                t.go.release()
                if self.free:
                    for o in self.threads:
                        if o.state in ("ready", "blocked"):
                            o.state = "running"
                            o.go.release()
                    for th in real:
                        th.join(max(0.0, deadline - time.time()))
                        if th.is_alive():
                            raise Hang("threads did not finish")
                    break
                # wait until some thread reports back
                self.back.acquire(timeout=self.grace)
                if time.time() > deadline:
                    raise Hang("schedule did not finish")
            for th in real:
                th.join(5)
        finally:
            self.free = True
            _active = None
            for t in self.threads:
                t.go.release()
        return self


# --- policies ---------------------------------------------------------------------------------------------
def random_policy(rng, switch=0.3):
    """Switch to another thread with probability `switch` at each point."""
    def choose(cand, last):
        if last in cand and rng.random() > switch:
            return last
        return rng.choice(cand)
    return choose


def pct_policy(rng, names, depth=3, horizon=400):
    """Probabilistic concurrency testing: random priorities, `depth` random change points."""
    prio = {n: rng.random() + 1 for n in names}
    changes = sorted(rng.randrange(horizon) for _ in range(depth))
    state = {"n": 0, "low": 0}

    def choose(cand, last):
        state["n"] += 1
        while changes and state["n"] >= changes[0]:
            changes.pop(0)
            if last is not None:
                state["low"] += 1
                prio[last.name] = -state["low"]
        return max(cand, key=lambda t: prio.get(t.name, 0))
    return choose


def script_policy(script, fallback=None):
    """Follow a schedule given as a sequence of thread names; skip entries that cannot run."""
    it = iter(script)

    def choose(cand, last):
        names = {t.name: t for t in cand}
        for n in it:
            if n in names:
                return names[n]
        return last if last in cand else cand[0]
    return choose
