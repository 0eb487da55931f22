"""Deterministic scheduler of real threads.

Exactly one thread runs; all others wait on their own semaphore. At every event (line or bytecode of
pystrata, pyrvt or pykooh) the running thread asks the policy who runs next. The log of switches is
the schedule. Locks that the library creates are cooperative, so that a thread that blocks hands over.
"""

import random
import sys
import threading as _threading

from .core import LIB, HarnessError
from .trace import in_cleanup, skipped

_RealThread = _threading.Thread
_RealLock = _threading.Lock
_RealRLock = _threading.RLock
_RealSemaphore = _threading.Semaphore


def _prefixes():
    import pykooh
    import pyrvt

    out = [LIB]
    for m in (pykooh, pyrvt):
        out.append(m.__file__.rsplit("/", 1)[0] + "/")
    return tuple(out)


class Deadlock(Exception):
    pass


class Abandoned(BaseException):
    """Raised in threads that are unwound after the run was given up."""


class Scheduler:
    """Runs functions in threads under a seeded or recorded schedule."""

    current = None

    def __init__(self, policy, opcodes=False, max_events=400_000):
        self.policy = policy
        self.opcodes = opcodes
        self.max_events = max_events
        self.prefixes = _prefixes()
        self.events = 0
        self.switches = []
        self.signature = []
        self.problem = None
        self.broken = None
        # thread: [local event, exception]; not with opcodes, where raising can crash the interpreter
        self.inject = {}
        self.raised = []
        self._known = {}
        # Places that the policy may prefer: functions by name, methods of shared objects by id
        self.hot_names = frozenset()
        self.hot_ids = frozenset()
        self.hot = False
        # First calls of functions (and of methods of the shared objects), at which the policy may act
        self.fresh = getattr(policy, "fresh", None)
        self.calls = {}

    # -- life cycle
    def run(self, funcs):
        n = len(funcs)
        self.sem = [_RealSemaphore(0) for _ in range(n)]
        self.local = [0] * n
        self.done = [False] * n
        self.blocked = [None] * n
        self.result = [None] * n
        self.ident = {}
        self.finished = _RealSemaphore(0)
        self.running = None
        Scheduler.current = self
        # The interpreter rewrites running code when the set of traced events changes: fix it now
        if self.opcodes:
            sys._getframe().f_trace_opcodes = True
        sys.settrace(lambda *args: None)
        threads = [_RealThread(target=self._body, args=(i, f), daemon=True)
                   for i, f in enumerate(funcs)]
        for t in threads:
            t.start()
        first = self.first = self.policy.start(list(range(n)))
        self.running = first
        self.sem[first].release()
        if not self.finished.acquire(timeout=100):
            raise HarnessError("scheduler: a run did not finish")
        for t in threads:
            t.join(10)
        sys.settrace(None)
        Scheduler.current = None
        if self.broken:
            raise HarnessError("scheduler: " + self.broken)
        return self.result

    def _body(self, i, func):
        self.ident[_threading.get_ident()] = i
        sys.settrace(lambda *args: None)
        self.sem[i].acquire()
        try:
            if self.problem:
                return
            sys.settrace(self._global)
            try:
                self.result[i] = ("ok", func())
            except Abandoned:
                pass
            except BaseException as e:  # noqa: BLE001
                self.result[i] = ("exc", e)
            finally:
                sys.settrace(None)
        finally:
            self.done[i] = True
            self._hand_over(i)

    def _hand_over(self, i):
        """The running thread i ended or blocked: choose another one."""
        ready = [k for k, d in enumerate(self.done) if not d and self.blocked[k] is None]
        if self.problem:
            ready = [k for k, d in enumerate(self.done) if not d]
        if not ready:
            if all(self.done):
                self.finished.release()
                return
            self.problem = ("deadlock", "all threads wait for locks")
            ready = [k for k, d in enumerate(self.done) if not d]
        nxt = ready[0] if self.problem else self.policy.at_end(i, self.local[i], ready)
        if not self.problem:
            self.switches.append([i, -1 - self.local[i], nxt])
        self.running = nxt
        self.sem[nxt].release()

    # -- events
    def _is_lib(self, code):
        name = code.co_filename
        ok = self._known.get(name)
        if ok is None:
            ok = self._known[name] = name.startswith(self.prefixes)
        return ok

    def _global(self, frame, event, arg):
        if self._is_lib(frame.f_code) and not skipped(frame):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            if self.fresh is not None:
                return self._first_call(frame)
            if self._is_hot(frame):
                return self._hot_event
            return self._local_event
        return None

    def _is_hot(self, frame):
        if frame.f_code.co_name in self.hot_names:
            return True
        code = frame.f_code
        if self.hot_ids and code.co_argcount and code.co_varnames[0] == "self":
            return id(frame.f_locals.get("self")) in self.hot_ids
        return False

    def _first_call(self, frame):
        """Local tracer of a new frame, which is hot at one event if this is one of the first calls."""
        code = frame.f_code
        key = code
        if self.hot_ids and code.co_argcount and code.co_varnames[0] == "self":
            me = id(frame.f_locals.get("self"))
            if me in self.hot_ids:
                key = (code, me)
        n = self.calls[key] = self.calls.get(key, 0) + 1
        left = self.fresh(n, self.opcodes)
        if not left:
            return self._local_event
        count = [left]

        def event(frame, what, arg):
            if what == "line" or what == "opcode":
                count[0] -= 1
                self.hot = count[0] == 0
            self._local_event(frame, what, arg)
            return event

        return event

    def _hot_event(self, frame, event, arg):
        self.hot = True
        try:
            self._local_event(frame, event, arg)
        finally:
            self.hot = False
        return self._hot_event

    def _local_event(self, frame, event, arg):
        if event == "line" or event == "opcode":
            i = self.running
            self.events += 1
            self.local[i] += 1
            if self.events > self.max_events and not self.problem:
                self.problem = ("no end", f"more than {self.max_events} events")
            if self.problem:
                raise Abandoned()
            self._step(i, frame.f_code.co_name, frame.f_lineno)
            if i in self.inject:
                self._raise(i, frame)
        return self._local_event

    def _raise(self, i, frame):
        if self.local[i] >= self.inject[i][0] and \
                sys.exception() is None and not in_cleanup(frame, self._is_lib):
            self.raised.append(i)
            raise self.inject.pop(i)[1]("injected")

    def _step(self, i, name, line):
        hot, self.hot = self.hot, False
        try:
            nxt = self.policy.at_event(i, self.local[i], self, hot)
        except Exception as e:
            # Not to be mistaken for an error of the library
            self.broken = self.broken or repr(e)
            self.problem = self.problem or ("harness", "policy")
            raise Abandoned() from e
        if nxt is not None and nxt != i and not self.done[nxt] and self.blocked[nxt] is None:
            self.switches.append([i, self.local[i], nxt])
            self.signature.append((i, name, line, nxt))
            self._switch(i, nxt)

    def point(self, name):
        """Another place where the running thread can be switched."""
        i = self.me()
        if i is None or i != self.running or self.problem:
            return
        self.events += 1
        self.local[i] += 1
        self._step(i, name, 0)

    def _switch(self, i, nxt):
        self.running = nxt
        self.sem[nxt].release()
        self.sem[i].acquire()
        if self.problem:
            raise Abandoned()

    def ready(self, i):
        return [k for k, d in enumerate(self.done)
                if not d and self.blocked[k] is None and k != i]

    # -- cooperative locks
    def me(self):
        return self.ident.get(_threading.get_ident())

    def block(self, lock):
        i = self.me()
        self.blocked[i] = lock
        self._hand_over(i)
        self.sem[i].acquire()
        if self.problem:
            raise Abandoned()

    def unblock(self, lock):
        for k, b in enumerate(self.blocked):
            if b is lock:
                self.blocked[k] = None


class SimLock:
    """Lock (or reentrant lock) that hands over to the scheduler when it has to wait."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")

    def _key(self):
        s = Scheduler.current
        return ("t", s.me()) if s is not None and s.me() is not None else ("main",)

    def acquire(self, blocking=True, timeout=-1):
        key = self._key()
        while self.depth:
            if self.reentrant and self.owner == key:
                break
            if not blocking:
                return False
            if Scheduler.current is None or key == ("main",):
                raise Deadlock("lock is held")
            Scheduler.current.block(self)
        self.owner = key
        self.depth += 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
            if Scheduler.current is not None:
                Scheduler.current.unblock(self)

    def locked(self):
        return bool(self.depth)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()
        return False


def install_locks():
    """Locks created by the library are cooperative. Call before importing it."""
    prefixes = _prefixes()

    def lib_caller():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(prefixes)

    def lock():
        return SimLock() if lib_caller() else _RealLock()

    def rlock():
        return SimLock(True) if lib_caller() else _RealRLock()

    _threading.Lock = lock
    _threading.RLock = rlock


# ---------------------------------------------------------------------------------------------
# Policies


class Seeded:
    """Random switches. kind: 'uniform' (switch with probability p at each event), 'sticky' (runs of
    geometric length, round robin), 'priority' (fixed priorities with a few change points), 'focus'
    (probability q in hot places, p elsewhere), 'first' (the running thread gets the lowest priority
    at a random event of some of the first calls of each function)."""

    def __init__(self, seed, kind, p, n, horizon=4000, changes=4, q=0.2):
        self.rng = random.Random(seed)
        self.kind = kind
        self.p = p
        self.q = q if kind == "focus" else p
        if kind == "first":
            self.fresh = self._fresh
        if kind in ("priority", "first"):
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            self.points = {self.rng.randrange(1, max(horizon, 2)) for _ in range(changes)}
            self.low = -1

    def _fresh(self, n, opcodes):
        if n > 3 or self.rng.random() > self.p:
            return 0
        return self.rng.randint(1, self.rng.choice((20, 90) if opcodes else (2, 5, 12)))

    def start(self, ready):
        if self.kind in ("priority", "first"):
            return max(ready, key=lambda k: self.prio[k])
        return self.rng.choice(ready)

    def at_event(self, i, k, s, hot=False):
        if self.kind in ("priority", "first"):
            if hot if self.kind == "first" else s.events in self.points:
                self.prio[i] = self.low
                self.low -= 1
                ready = s.ready(i)
                if ready:
                    return max(ready, key=lambda k: self.prio[k])
            return None
        if self.rng.random() < (self.q if hot else self.p):
            ready = s.ready(i)
            if ready:
                if self.kind == "sticky":
                    return min(ready, key=lambda k: (k - i) % 64)
                return self.rng.choice(ready)
        return None

    def at_end(self, i, k, ready):
        if self.kind in ("priority", "first"):
            return max(ready, key=lambda k: self.prio[k])
        return self.rng.choice(ready)


class Recorded:
    """Replays a list of switches [thread, local event, next thread]."""

    def __init__(self, first, switches, n):
        self.first = first
        self.map = {}
        for i, k, nxt in switches:
            # A plan from which threads were taken out still names them
            if i < n and nxt < n:
                self.map.setdefault((i, k), nxt)

    def start(self, ready):
        return self.first if self.first in ready else ready[0]

    def at_event(self, i, k, s, hot=False):
        return self.map.get((i, k))

    def at_end(self, i, k, ready):
        nxt = self.map.get((i, -1 - k))
        return nxt if nxt in ready else ready[0]


def make_policy(doc, n):
    if "switches" in doc:
        return Recorded(doc.get("first", 0), doc["switches"], n)
    return Seeded(doc["seed"], doc["kind"], doc["p"], n, doc.get("horizon", 4000),
                  doc.get("changes", 4), doc.get("q", 0.2))
