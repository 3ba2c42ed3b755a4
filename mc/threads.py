"""Cooperative threads: real OS threads of which exactly one runs at a time; every switch is a choice of the explorer.

The code under test is executed from its own source with `threading`, `queue` and `concurrent.futures` replaced by cooperative
versions (`load`), and with a possible switch before every one of its lines (sys.settrace). A preemption costs a deviation, a switch
at a blocking operation does not; a timeout that expires while another thread could run costs a deviation too."""
import _thread
import builtins
import collections
import concurrent.futures
import dis
import importlib.util
import os
import queue as real_queue
import sys
import threading as real_threading
import types

CUR = None  # the active Sched
PINNED = False


class Kill(BaseException):
    pass


class VT:
    def __init__(self, idx, name):
        self.idx, self.name = idx, name
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.ended = _thread.allocate_lock()
        self.ended.acquire()
        self.pred = None  # None: runnable
        self.timed = False
        self.expired = False
        self.done = False
        self.fresh = False
        self.thread = None
        self.exc = None

    def enabled(self):
        return not self.done and (self.pred is None or self.expired or self.pred())


LINES = {}
SHARED = ("ATTR", "CALL", "SUBSCR", "STORE_GLOBAL", "STORE_DEREF", "LOAD_DEREF", "WITH", "DELETE", "SEND", "ITER", "CONTAINS", "IMPORT", "NAME")


def shared_lines(code):
    """the lines of a code object that can touch what other threads see (all but those which only use local variables)"""
    out, line = set(), None
    for i in dis.get_instructions(code):
        if i.starts_line is not None:
            line = i.starts_line
        if line is not None and any(x in i.opname for x in SHARED):
            out.add(line)
    return out


class Sched:
    def __init__(self, ctx, targets=(), max_timeouts=2, max_steps=20000, free=True):
        self.free = free  # whether a switch at a blocking operation is free whoever comes next
        self.ctx = ctx
        self.targets = set(targets)
        self.timeouts = max_timeouts
        self.threads = []
        self.cur = None
        self.killing = False
        self.steps = 0
        self.max_steps = max_steps
        self.local = {}
        self.muted = 0
        self.made = 0
        self.quiet = None  # the thread that waits for quiescence
        self.dead = None

    # ---- threads
    def spawn(self, fn, name):
        t = VT(len(self.threads), name)
        self.threads.append(t)

        def boot():
            t.baton.acquire()
            try:
                if not self.killing:
                    sys.settrace(self.trace)
                    fn()
            except Kill:
                pass
            except BaseException as e:  # noqa
                t.exc = e
            finally:
                sys.settrace(None)
                t.done = True
                if not self.killing:
                    try:
                        self.pick_next(t)
                    except BaseException as e:  # noqa
                        t.exc = t.exc or e
                t.ended.release()
        _thread.start_new_thread(boot, ())
        return t

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename in self.targets:
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line" and not self.muted:
            code = frame.f_code
            lines = LINES.get(code)
            if lines is None:
                lines = LINES[code] = shared_lines(code)
            if frame.f_lineno in lines:
                self.point(f"{code.co_name}:{frame.f_lineno - code.co_firstlineno}")
                if self.cur is not None:
                    self.cur.fresh = True
        return self.line

    def op(self, what):
        """a possible preemption before an operation of a primitive, unless the line it is on has just had one"""
        t = self.cur
        if t.fresh:
            t.fresh = False
        else:
            self.point(what)

    def me(self):
        return self.cur

    def _check(self):
        if self.killing:
            raise Kill
        self.steps += 1
        self.ctx.step()
        if self.steps > self.max_steps:
            self.fail("livelock: the threads never come to rest")

    def fail(self, msg):
        """report from whichever thread: the main thread raises it"""
        self.dead = self.dead or msg
        main = self.threads[0]
        if self.cur is main:
            self.ctx.fail(self.dead, "deadlock")
        self.go(self.cur, main)
        raise Kill

    def go(self, t, nxt):
        if nxt is t:
            return
        self.cur = nxt
        nxt.baton.release()
        if not t.done:
            t.baton.acquire()
            if self.killing:
                raise Kill
            if t is self.threads[0] and self.dead:
                self.ctx.fail(self.dead, "deadlock")

    def point(self, what=""):
        """a possible preemption"""
        t = self.cur
        if t is None or self.muted:
            return
        self._check()
        others = [o for o in self.threads if o is not t and o is not self.quiet and o.enabled()]
        timers = self.timers(t)
        if not others and not timers:
            return
        opts = [t] + others + timers
        i = self.ctx.choose([self.label(o) for o in opts], [0] + [1] * (len(opts) - 1), f"{t.name}@{what} ")
        self.take(t, opts[i])

    def timers(self, t):
        if self.timeouts <= 0:
            return []
        return [("timeout", o) for o in self.threads if o is not t and o.timed and not o.done and not o.enabled()]

    @staticmethod
    def label(o):
        return f"timeout {o[1].name}" if isinstance(o, tuple) else o.name

    def take(self, t, o):
        if isinstance(o, tuple):
            o = o[1]
            o.expired = True
            self.timeouts -= 1
        self.go(t, o)

    def pick_next(self, t):
        """t can not go on: choose who does"""
        others = [o for o in self.threads if o is not self.quiet and o.enabled()]
        if others:
            timers = self.timers(t)
            opts = others + timers
            i = self.ctx.choose([self.label(o) for o in opts], [0] + [0 if self.free else 1] * (len(others) - 1) + [1] * len(timers), "next ")
            return self.take(t, opts[i])
        if self.quiet is not None:
            return self.go(t, self.quiet)
        timed = [o for o in self.threads if o.timed and not o.done]
        if timed and self.timeouts > 0:
            opts = [("timeout", o) for o in timed]
            i = self.ctx.choose([self.label(o) for o in opts], [0] * len(opts), "next ")
            return self.take(t, opts[i])
        self.dead = self.dead or "deadlock: " + ", ".join(f"{o.name} blocked" for o in self.threads if not o.done)
        main = self.threads[0]
        if t is main:
            self.ctx.fail(self.dead, "deadlock")
        self.go(t, main)

    def block(self, pred, timed=False, what=""):
        """-> whether pred came true (False: timed out)"""
        t = self.cur
        self._check()
        while not pred():
            t.pred, t.timed = pred, timed
            try:
                self.pick_next(t)
            finally:
                t.pred, t.timed = None, False
                late, t.expired = t.expired, False
            if late and not pred():
                return False
        return True

    def quiesce(self):
        """main: until nobody else can run"""
        t = self.cur
        while any(o is not t and o.enabled() for o in self.threads):
            self.quiet = t
            t.pred = lambda: False
            try:
                self.pick_next(t)
            finally:
                self.quiet = None
                t.pred = None

    def expire(self):
        """main: everybody who waits with a timeout times out, now"""
        for o in self.threads:
            if o.timed and not o.done and not o.enabled():
                o.expired = True
        self.quiesce()

    # ---- the execution
    def __enter__(self):
        global CUR, PINNED
        if not PINNED:  # only one thread runs at a time: switches are cheaper on one CPU
            PINNED = True
            cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {cpus[os.getpid() % len(cpus)]})
        CUR = self
        main = VT(0, "main")
        main.thread = real_threading.current_thread()
        self.threads.append(main)
        self.cur = main
        sys.settrace(self.trace)
        return self

    def trace_here(self):
        """switches at the lines of the caller's frame too"""
        sys._getframe(1).f_trace = self.line

    def __exit__(self, *a):
        global CUR
        sys.settrace(None)
        self.killing = True
        main = self.threads[0]
        for t in self.threads[1:]:
            if not t.ended.acquire(blocking=False):
                self.cur = t
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
                if not t.ended.acquire(timeout=10):
                    raise RuntimeError(f"thread {t.name} does not end")
        self.cur = None
        CUR = None


# ---------------------------------------------------------------------------------------------- cooperative primitives
def _s():
    s = CUR
    return s if s is not None and s.cur is not None and not s.killing else None


class Lock:
    def __init__(self):
        self._owner = None
        self._n = 0

    _re = False

    def acquire(self, blocking=True, timeout=-1):
        s = _s()
        if s is None:
            if self._owner is not None and not self._re and not (CUR and CUR.killing):
                raise RuntimeError("lock taken outside the scheduler")
            self._owner, self._n = self._owner or "outside", self._n + 1
            if CUR and CUR.killing:
                raise Kill
            return True
        s.op("acquire")
        me = s.me()
        if self._re and self._owner is me:
            self._n += 1
            return True
        if self._owner is not None:
            if not blocking or timeout == 0:
                return False
            if not s.block(lambda: self._owner is None, timed=timeout is not None and timeout > 0):
                return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._owner is None:
            if CUR and CUR.killing:
                return
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n <= 0:
            self._owner, self._n = None, 0

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._n = None, 0


class RLock(Lock):
    _re = True


class Condition:
    def __init__(self, lock=None):
        self._lock = RLock() if lock is None else lock
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = collections.deque()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        s = _s()
        w = [False]
        self._waiters.append(w)
        owner, n = self._lock._owner, self._lock._n
        self._lock._owner, self._lock._n = None, 0
        ok = s.block(lambda: w[0], timed=timeout is not None)
        if not ok:
            self._waiters.remove(w)
        s.block(lambda: self._lock._owner is None)
        self._lock._owner, self._lock._n = owner, n
        return ok

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        while n and self._waiters:
            self._waiters.popleft()[0] = True
            n -= 1

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Semaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        s = _s()
        if s is not None:
            s.op("acquire")
            if self._value <= 0:
                if not blocking or timeout is not None and timeout <= 0:
                    return False
                if not s.block(lambda: self._value > 0, timed=timeout is not None):
                    return False
        elif self._value <= 0:
            return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self._initial_value = value

    def release(self, n=1):
        if self._value + n > self._initial_value:
            raise ValueError("Semaphore released too many times")
        self._value += n


class QuietLock(RLock):
    """a lock that is no place for a preemption (of trusted code)"""

    def acquire(self, blocking=True, timeout=-1):
        s = _s()
        if s is None:
            return super().acquire(blocking, timeout)
        me = s.me()
        if self._owner is me:
            self._n += 1
            return True
        if self._owner is not None and not s.block(lambda: self._owner is None):
            return False
        self._owner, self._n = me, 1
        return True


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        s = _s()
        s.op("wait")
        if self._flag or timeout == 0:
            return self._flag
        return s.block(lambda: self._flag, timed=timeout is not None)


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name, self.daemon = str(name), bool(daemon)
        self._vt = None
        s = _s()
        self._seq = 0
        if s is not None:
            s.made += 1
            self._seq = s.made

    def __hash__(self):  # sets of threads iterate in the same order in every execution
        return self._seq

    def __eq__(self, other):
        return self is other

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._vt is not None:
            raise RuntimeError("threads can only be started once")
        s = _s()
        self._vt = s.spawn(self.run, f"w{len(s.threads)}")
        self._vt.thread = self

    def join(self, timeout=None):
        s = _s()
        if s is not None:
            s.block(lambda: self._vt.done, timed=timeout is not None)

    def is_alive(self):
        return self._vt is not None and not self._vt.done

    @property
    def ident(self):
        return None if self._vt is None else self._vt.idx


class SimpleQueue:
    def __init__(self, maxsize=0):
        self._q = collections.deque()

    def put(self, item, block=True, timeout=None):
        self._q.append(item)

    put_nowait = put

    def get(self, block=True, timeout=None):
        s = _s()
        if s is None:
            if CUR and CUR.killing:
                raise Kill
            if not self._q:
                raise real_queue.Empty
            return self._q.popleft()
        s.op("get")
        if not self._q:
            if not block or timeout == 0:
                raise real_queue.Empty
            if not s.block(lambda: bool(self._q), timed=timeout is not None):
                raise real_queue.Empty
        return self._q.popleft()

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        return not self._q

    def qsize(self):
        return len(self._q)


def _module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


def _current_thread():
    s = _s()
    return real_threading.current_thread() if s is None else s.cur.thread


threading = _module(
    "threading", Lock=Lock, RLock=RLock, Condition=Condition, Semaphore=Semaphore, BoundedSemaphore=BoundedSemaphore, Event=Event,
    Thread=Thread, current_thread=_current_thread, currentThread=_current_thread, main_thread=real_threading.main_thread,
    local=real_threading.local, get_ident=lambda: CUR.cur.idx if CUR and CUR.cur else -1, _register_atexit=lambda *a, **k: None,
    enumerate=lambda: [t.thread for t in CUR.threads if not t.done], TIMEOUT_MAX=real_threading.TIMEOUT_MAX,
)
queue = _module("queue", SimpleQueue=SimpleQueue, Queue=SimpleQueue, Empty=real_queue.Empty, Full=real_queue.Full)


CODE = {}


def load(name, path, mapping, package=None):
    """execute the source of a module with some of its imports replaced -> the module"""
    code = CODE.get(path)
    if code is None:
        with open(path) as f:
            code = CODE[path] = compile(f.read(), path, "exec")
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = package if package is not None else name.rpartition(".")[0]

    def imp(n, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if n in mapping:
                x = mapping[n]
                if not fromlist and "." in n:
                    return mapping.get(n.partition(".")[0], x)
                return x
        return builtins.__import__(n, globals, locals, fromlist, level)

    b = dict(vars(builtins))
    b["__import__"] = imp
    m.__dict__["__builtins__"] = b
    exec(code, m.__dict__)
    return m


def futures():
    """cooperative copies of concurrent.futures -> import mapping"""
    base = load("concurrent.futures._base", importlib.util.find_spec("concurrent.futures._base").origin, 
                {"threading": _module("threading", **{**vars(threading), "Condition": lambda lock=None: Condition(lock or QuietLock())})})
    pool = _module("concurrent.futures")
    pool._base = base
    mapping = {"threading": threading, "queue": queue, "concurrent.futures": pool, "concurrent.futures._base": base}
    thread = load("concurrent.futures.thread", importlib.util.find_spec("concurrent.futures.thread").origin,
                  {**mapping, "os": _module("os", cpu_count=lambda: 4)})
    pool.thread = thread
    for n in base.__dict__:
        if not n.startswith("_") and n not in pool.__dict__:
            pool.__dict__[n] = base.__dict__[n]
    pool.Executor, pool.Future = base.Executor, base.Future
    pool.ThreadPoolExecutor = thread.ThreadPoolExecutor
    pool.ProcessPoolExecutor = type("ProcessPoolExecutor", (base.Executor,), {})
    mapping["concurrent.futures.thread"] = thread
    mapping["concurrent"] = _module("concurrent", futures=pool)
    return mapping
