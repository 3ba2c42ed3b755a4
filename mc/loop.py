"""A controlled asyncio event loop: virtual time, one handle per step, environment events at every step boundary.

The real a_sync code runs on it unchanged. Ready handles run in FIFO order, as asyncio guarantees. What a real
run leaves open is when the *environment* acts: when an independent caller issues its next operation, when a
caller is cancelled, when an awaited external result arrives, when time passes. Each such event is a choice of
the explorer, offered at every handle boundary; acting while handles are still ready costs one deviation, acting
at quiescence is free. An event is any callback that a real loop could have had in its ready queue at that
point (asyncio appends I/O and threadsafe callbacks there), so every explored execution is a real one.
"""
import asyncio
import collections
import heapq
import itertools
import sys
from asyncio import base_events, events

from .explore import Violation, Abandon

MAX_STEPS = 60000


class Deadlock(Exception):
    pass


_seq = itertools.count(1)


class DetFuture(asyncio.Future):
    """asyncio.Future with an allocation-order hash, so that set iteration order is reproducible."""

    def __init__(self, *, loop=None):
        super().__init__(loop=loop)
        self._h = next(_seq)

    def __hash__(self):
        return self._h


class DetTask(asyncio.Task):
    def __init__(self, coro, **kw):
        self._h = next(_seq)
        super().__init__(coro, **kw)

    def __hash__(self):
        return self._h


def _task_factory(loop, coro, **kw):
    return DetTask(coro, loop=loop, **kw)


class OrderedSet(dict):
    """stand-in for set() inside asyncio.tasks: insertion-ordered, so as_completed starts tasks in order."""

    def __init__(self, it=()):
        super().__init__((x, None) for x in it)

    def add(self, x):
        self[x] = None

    def remove(self, x):
        del self[x]

    def discard(self, x):
        self.pop(x, None)


asyncio.tasks.set = OrderedSet


class ModelLoop(base_events.BaseEventLoop):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.vtime = 1000.0
        self.set_task_factory(_task_factory)
        self.events = []  # Event objects
        self.offer = False  # offer environment events
        self.fire_timers = True  # may the environment let time pass?
        self.early_timers = False  # offer a due timer also while handles are ready (1 deviation)
        self.steps = 0
        self.exc_contexts = []
        self.set_exception_handler(self._on_exc)
        self.on_step = None
        self.on_quiescent = None
        self._internal_fds = 0
        self.in_wait = 0
        self.daemons = {}  # timers of debug daemons (they go on for ever)
        self.daemon_fires = 1

    # -- BaseEventLoop plumbing
    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def time(self):
        return self.vtime

    def create_future(self):
        return DetFuture(loop=self)

    def call_at(self, when, callback, *args, context=None):
        h = super().call_at(when, callback, *args, context=context)
        t = asyncio.current_task(self) if events._get_running_loop() is self else None
        if t is not None and "_debug_daemon" in getattr(t.get_coro(), "__qualname__", ""):
            self.daemons[id(h)] = h
        return h

    def _timer(self):
        """is there a timer to wait for? Those of debug daemons go on for ever: they do not count"""
        if not self.daemons:
            return bool(self._scheduled)
        self.daemons = {id(h): h for h in self._scheduled if id(h) in self.daemons}
        return any(id(h) not in self.daemons and not h._cancelled for h in self._scheduled)

    def run_in_executor(self, executor, func, *args):
        if executor is None:
            # the default executor (getaddrinfo and such): run in line
            fut = self.create_future()
            try:
                fut.set_result(func(*args))
            except Exception as e:
                fut.set_exception(e)
            return fut
        return super().run_in_executor(executor, func, *args)

    def _on_exc(self, loop, context):
        msg = context.get("message", "")
        self.exc_contexts.append((msg, repr(context.get("exception"))))

    def close(self):
        super().close()

    # -- the controlled step
    def _pop_cancelled_timers(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(self._scheduled)
            h._scheduled = False

    def _fire_next_timer(self):
        skip = self.daemons and self._timer()
        while True:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            if h._when > self.vtime:
                self.vtime = h._when
            self._ready.append(h)
            if not (skip and id(h) in self.daemons):
                break
            self._pop_cancelled_timers()  # a daemon's: time goes on to the next timer of the program
        # timers due at the very same instant become ready together, as in asyncio
        self._pop_cancelled_timers()
        while self._scheduled and self._scheduled[0]._when <= self.vtime:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._ready.append(h)
            self._pop_cancelled_timers()

    def _run_once(self):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Violation("livelock: the loop never becomes quiescent", "livelock")
        self._pop_cancelled_timers()
        ready = self._ready
        while ready and ready[0]._cancelled:
            ready.popleft()
        if self._stopping and not self.offer:
            # run what run_until_complete still needs: nothing
            if ready:
                self._exec(ready.popleft())
            return
        evs = [e for e in self.events if e.enabled()] if self.offer else []
        timer = self._timer() and self.fire_timers
        if ready:
            if evs or (timer and self.early_timers and self.offer):
                opts = ["run"] + [e.name for e in evs]
                acts = [None] + evs
                if timer and self.early_timers:
                    opts.append("timer")
                    acts.append("timer")
                c = self.ctx.choose(opts, (0,) + (1,) * (len(opts) - 1))
                if c:
                    self._act(acts[c])
                    return
            self._exec(ready.popleft())
            return
        # quiescent
        if self.on_quiescent and self.offer:
            self.on_quiescent()
        acts = list(evs)
        opts = [e.name for e in evs]
        if timer:
            acts.append("timer")
            opts.append("timer")
        if not acts:
            if self._stopping:
                return
            if self.daemons and self.daemon_fires and self.offer:
                self.daemon_fires -= 1
                self._act("timer")
                return
            raise Deadlock()
        if self.daemons and self.daemon_fires and self.offer and not timer:
            c = self.ctx.choose(opts + ["daemon"], (0,) * len(opts) + (1,))
            if c == len(opts):
                self.daemon_fires -= 1
                acts.append("timer")
        else:
            c = self.ctx.choose(opts) if self.offer else 0
        self._act(acts[c])

    def _act(self, a):
        self.ctx.step()
        if a == "timer":
            self._fire_next_timer()
        else:
            a.fire()
        if self.on_step:
            self.on_step()
        if self.ctx.viol is not None:
            raise self.ctx.viol

    def _exec(self, handle):
        self.ctx.step()
        handle._run()
        if self.on_step:
            self.on_step()
        if self.ctx.viol is not None:
            raise self.ctx.viol


class Event:
    __slots__ = ("name", "fn", "pred", "fired", "repeat")

    def __init__(self, name, fn, pred=None, repeat=False):
        self.name = name
        self.fn = fn
        self.pred = pred
        self.fired = False
        self.repeat = repeat

    def enabled(self):
        return (self.repeat or not self.fired) and (self.pred is None or self.pred())

    def fire(self):
        self.fired = True
        self.fn()


class Client:
    def __init__(self, name):
        self.name = name
        self.gate_fut = None
        self.gate_label = None
        self.task = None
        self.done = False
        self.exc = None
        self.result = None
        self.phase = "new"
        self.expect = ()  # exception types the client may end with
        self.cancel_requested = False


class Run:
    """One execution of a closed system of clients on the model loop.

    with Run(ctx) as r:
        r.client("A", coro_fn)      # coro_fn(c) where `await r.gate(c, "label")` waits for the environment
        r.event("cancel A", fn, pred)
        r.go()                      # explore until all clients are done (or deadlock)
    """

    def __init__(self, ctx, allow_exc=(), early_timers=False):
        self.ctx = ctx
        self.clients = []
        self.allow_exc = allow_exc
        self.early_timers = early_timers

    def __enter__(self):
        global _seq
        _seq = itertools.count(1)
        self._old = None
        self.loop = ModelLoop(self.ctx)
        self.loop.early_timers = self.early_timers
        asyncio.set_event_loop(self.loop)
        self.setup_ctx = None
        return self

    def __exit__(self, et, ev, tb):
        loop = self.loop
        loop.offer = False
        loop.on_step = None
        loop.on_quiescent = None
        loop.events = []
        self.ctx.muted = True
        try:
            if not loop.is_closed():
                self._drain()
        finally:
            self.ctx.muted = False
            asyncio.set_event_loop(None)
            if not loop.is_closed():
                loop._ready.clear()
                loop._scheduled.clear()
                loop.close()
            loop.ctx = None
            self.loop = None
            self.clients = []
        return False

    def _drain(self):
        """Cancel whatever is left, so that nothing of this execution leaks into the next one."""
        loop = self.loop
        loop.steps = 0
        for _ in range(6):
            pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
            if not pend:
                break
            for t in pend:
                t._log_destroy_pending = False
                t.cancel()
            for _ in range(400):
                loop._pop_cancelled_timers()
                if not loop._ready:
                    break
                h = loop._ready.popleft()
                if not h._cancelled:
                    with _Running(loop):
                        try:
                            h._run()
                        except BaseException:  # noqa
                            pass

    # -- building
    def setup(self, fn):
        """Run fn() as if inside the running loop."""
        with _Running(self.loop):
            return fn()

    def gate(self, c, label):
        fut = self.loop.create_future()
        c.gate_fut = fut
        c.gate_label = label
        return fut

    def client(self, name, fn, auto=False):
        """fn(c) -> coroutine. Its start is an environment event unless auto."""
        c = Client(name)

        async def body():
            c.phase = "running"
            c.result = await fn(c)
            return c.result

        def start():
            c.task = self.loop.create_task(body())
            c.task.add_done_callback(finished)

        def finished(t):
            c.done = True
            c.phase = "done"
            if t.cancelled():
                c.exc = "cancelled"
                if not c.cancel_requested and self.loop is not None and self.loop.offer:
                    self.ctx.fail(f"{c.name} was cancelled although nobody cancelled it", "spurious-cancel")
            elif t.exception() is not None:
                c.exc = t.exception()
                if not isinstance(c.exc, c.expect) and not isinstance(c.exc, Violation):
                    import traceback

                    tb = traceback.extract_tb(c.exc.__traceback__)
                    where = ",".join(f.name for f in tb[-3:])
                    self.ctx.fail(f"{c.name} got an unexpected {type(c.exc).__name__}: {c.exc} (in {where})", "exception")

        def gate_open():
            f = c.gate_fut
            c.gate_fut = None
            f.set_result(None)

        self.clients.append(c)
        if auto:
            self.setup(start)
        else:
            self.loop.events.append(Event(f"{name}.start", start))
        self.loop.events.append(
            _GateEvent(c, gate_open)
        )
        return c

    def event(self, name, fn, pred=None, repeat=False):
        e = Event(name, fn, pred, repeat)
        self.loop.events.append(e)
        return e

    def cancel_event(self, c, when=None, on=None):
        """An environment event that cancels client c once it has started (and is not at a gate)."""
        return self.event(
            f"{c.name}.cancel",
            lambda: (self.ctx.log(c.name, "CANCEL"), setattr(c, "cancel_requested", True), on and on(), c.task.cancel()),
            lambda: c.task is not None and not c.done and c.gate_fut is None and (when is None or when()),
        )

    # -- running
    def go(self, until=None, deadlock_ok=False):
        """Explore until every client is done and the loop is quiescent. Returns False on deadlock."""
        loop = self.loop
        loop.offer = True
        ok = True
        try:
            with _Running(loop):
                while True:
                    loop._pop_cancelled_timers()
                    if all(c.done for c in self.clients) and not loop._ready and not any(
                        e.enabled() for e in loop.events
                    ):
                        if not (until and not until()):
                            break
                    if until is not None and until() and not loop._ready:
                        break
                    loop._run_once()
        except Deadlock:
            ok = False
        finally:
            loop.offer = False
        self._check_exc()
        if not ok and not deadlock_ok:
            stuck = [f"{c.name}({c.phase})" for c in self.clients if not c.done]
            raise Violation("deadlock: nothing can happen any more, but blocked: " + ", ".join(stuck), "deadlock")
        return ok

    def settle(self):
        """Run ready handles (no environment events, no timers)."""
        loop = self.loop
        with _Running(loop):
            while True:
                while loop._ready and loop._ready[0]._cancelled:
                    loop._ready.popleft()
                if not loop._ready:
                    break
                loop._exec(loop._ready.popleft())
        self._check_exc()

    def run(self, coro, what="final probe"):
        """Run a coroutine to completion without environment events; a deadlock is a violation."""
        loop = self.loop
        loop.offer = False
        try:
            return loop.run_until_complete(coro)
        except Deadlock:
            raise Violation(f"{what}: blocked forever", "deadlock") from None

    def try_run(self, coro):
        """Run a coroutine; returns ('ok', v), ('exc', e) or ('blocked', None)."""
        loop = self.loop
        loop.offer = False
        t = None
        with _Running(loop):
            t = loop.create_task(coro)
            while not t.done():
                try:
                    loop._run_once()
                except Deadlock:
                    t._log_destroy_pending = False
                    return ("blocked", t)
        if t.cancelled():
            return ("cancelled", None)
        if t.exception() is not None:
            return ("exc", t.exception())
        return ("ok", t.result())

    def _check_exc(self):
        for msg, exc in self.loop.exc_contexts:
            if msg.startswith("Exception in callback") and not any(a in msg + exc for a in self.allow_exc):
                raise Violation(f"internal error: {msg}: {exc}", "callback-error")


class _GateEvent(Event):
    __slots__ = ("c",)

    def __init__(self, c, fn):
        super().__init__("", fn, None, True)
        self.c = c

    @property
    def name(self):
        return f"{self.c.name}.{self.c.gate_label}"

    @name.setter
    def name(self, v):
        pass

    def enabled(self):
        f = self.c.gate_fut
        return f is not None and not f.done() and bool(f._callbacks)


class _Running:
    """Make the loop the running loop of this thread while single-stepping it."""

    def __init__(self, loop):
        self.loop = loop

    def __enter__(self):
        import threading

        self.prev = events._get_running_loop()
        if self.prev is None:
            events._set_running_loop(self.loop)
            self.loop._thread_id = threading.get_ident()
            self.hooks = sys.get_asyncgen_hooks()
            sys.set_asyncgen_hooks(firstiter=self.loop._asyncgen_firstiter_hook, finalizer=self.loop._asyncgen_finalizer_hook)

    def __exit__(self, *a):
        if self.prev is None:
            events._set_running_loop(None)
            self.loop._thread_id = None
            sys.set_asyncgen_hooks(*self.hooks)
        return False
