"""C24: debug logging changes nothing — every scenario of the other checks holds with debug logs on, every record can be formatted,
and the log daemons end with what they watch."""
import asyncio
import gc
import importlib
import json
import logging
import os
import re
import weakref

from mc.explore import Scenario, Violation, h64
from mc.loop import Run

ASSUMPTIONS = ["the scenarios and bounds of the other checks, with a deviation bound of at most 1 (evidence lists them)"]

ADDR = re.compile("0x[0-9a-f]+")
PREFIX = ("a_sync", "checks", "mc", "__main__")


class Handler(logging.Handler):
    """formats every record of the library at once"""

    def __init__(self, ctx):
        self.ctx = ctx
        super().__init__(logging.DEBUG)
        self.n = 0

    def createLock(self):
        self.lock = None  # threads of the explored program are switched under our control

    def emit(self, record):
        if self.ctx.muted or not record.name.startswith(PREFIX):
            return
        self.n += 1
        try:
            record.getMessage()
        except Exception as e:
            self.ctx.fail(f"a debug log cannot be formatted: {record.msg!r} {type(e).__name__}: {e}", "format")


def loud(ctx, names=("",)):
    """debug logs on for the loggers named"""
    h = Handler(ctx)
    root = logging.getLogger()
    old = [(logging.getLogger(n), logging.getLogger(n).level) for n in names]
    root.addHandler(h)
    for l, _ in old:
        l.setLevel(logging.DEBUG)

    def undo():
        root.removeHandler(h)
        for l, level in old:
            l.setLevel(level)
    ctx.cleanups.append(undo)
    return h


def wrapped(pid, s, bound, known):
    def body(ctx):
        loud(ctx)
        try:
            s.body(ctx)
        except Violation as v:
            if (pid, (ctx.viol or v).key) not in known:
                raise
            ctx.viol = None  # a finding without debug logs as well
    return Scenario(f"{pid}:{s.name}", body, min(s.bound, bound), env=s.env)


OTHERS = [f"C{i:02}" for i in range(1, 24)]
HEAVY = 4  # quick: every 4th scenario of the checks with many


# ------------------------------------------------------------------------------- classes and functions of every shape, loud and quiet
LOGGERS = ["a_sync." + x for x in ("a_sync.abstract", "a_sync.base", "a_sync.function", "a_sync.method", "a_sync.property", "a_sync._meta", "primitives", "asyncio")]


def init_of(shape, flag, default):
    if shape == "kw":
        return {"__init__": eval(f"lambda self, *, {flag}={default}: setattr(self, '{flag}', {flag})")}
    if shape == "pos-default":
        return {"__init__": eval(f"lambda self, {flag}={default}: setattr(self, '{flag}', {flag})")}
    if shape == "required":
        return {"__init__": eval(f"lambda self, {flag}: setattr(self, '{flag}', {flag})")}
    if shape == "required-kw":
        return {"__init__": eval(f"lambda self, *, {flag}: setattr(self, '{flag}', {flag})")}
    if shape == "two":
        return {"__init__": eval("lambda self, sync=True, asynchronous=False: setattr(self, 'sync', sync)")}
    if shape == "unset":
        return {"__init__": eval(f"lambda self, {flag}={default}: None")}
    if shape == "attr":
        return {flag: default}
    if shape == "two-attrs":
        return {"sync": True, "asynchronous": default}
    if shape == "instance":
        return {"__init__": eval(f"lambda self: setattr(self, '{flag}', {default})")}
    if shape == "property":
        return {flag: property(lambda self: default)}
    return {}


SHAPES = ["kw", "pos-default", "required", "required-kw", "two", "unset", "attr", "two-attrs", "instance", "property", "none"]


def tell(x):
    """what a value looks like to the caller"""
    if asyncio.iscoroutine(x):
        x.close()
        return "coroutine"
    if isinstance(x, asyncio.Future):
        return "future"
    if isinstance(x, BaseException):
        return f"{type(x).__name__} {ADDR.sub('0x', str(x))}"
    return ADDR.sub("0x", repr(x))


def tries(out, what, fn):
    try:
        x = fn()
    except Exception as e:
        x = e
    out.append((what, tell(x)))
    return x


def shapes(ctx):
    import a_sync
    from a_sync.a_sync import _meta

    for handler in vars(_meta).values():
        if isinstance(handler, logging.Handler):
            handler.setLevel(logging.CRITICAL)
    shape = ctx.pick(SHAPES, "flag in ")
    flag = ctx.pick(["sync", "asynchronous"], "flag=")
    default = ctx.pick([True, False, None, 1], "default=")
    derived = ctx.pick([False, True], "derived=")
    names = ctx.pick([("",)] + [(n,) for n in LOGGERS], "loud=")
    res = []
    for on in (False, True):
        _meta.logger.disabled = not on
        h = loud(ctx, names) if on else None
        asyncio.set_event_loop(asyncio.new_event_loop())
        out = []
        try:
            ns = init_of(shape, flag, default)

            def m(self, x=1):
                return x

            async def am(self, x=1):
                if x == 7:
                    raise ValueError(x)
                return x

            @a_sync.a_sync(runs_per_minute=1000, semaphore=2)
            async def dm(self):
                return "dm"

            @a_sync.a_sync("sync")
            def dd(self):
                return "dd"

            @a_sync.aka.property
            async def p(self):
                return "p"

            @a_sync.aka.cached_property
            async def cp(self):
                return "cp"

            async def gen(self):
                yield 1
            ns.update(m=m, am=am, dm=dm, dd=dd, p=p, cp=cp, gen=gen, __module__=__name__, _private=1, const=3)
            cls = tries(out, "class", lambda: type(a_sync.ASyncGenericBase)("Cls", (a_sync.ASyncGenericBase,), ns))
            if not isinstance(cls, Exception) and derived:
                cls = tries(out, "class", lambda: type(cls)("Sub", (cls,), {"extra": am, "__module__": __name__, "semaphore": 3}))
            if not isinstance(cls, Exception):
                tries(out, "default", lambda: cls.__a_sync_default_mode__())
                for args, kw in (((), {}), ((), {flag: True}), ((), {flag: False}), ((True,), {})):
                    o = tries(out, f"new {args} {kw}", lambda: cls(*args, **kw))
                    if isinstance(o, Exception):
                        continue
                    out[-1] = (out[-1][0], "made")
                    tries(out, "name", lambda: o.__a_sync_flag_name__)
                    tries(out, "value", lambda: o.__a_sync_flag_value__)
                    tries(out, "should", lambda: o.__a_sync_instance_should_be_sync__)
                    for name, a, k in (("m", (2,), {}), ("am", (), {"x": 3}), ("am", (7,), {}), ("am", (), {"sync": True}), ("am", (), {"sync": False}), ("dm", (), {}),
                                       ("dd", (), {}), ("dd", (), {"sync": False}), ("dd", (), {"sync": 3}), ("gen", (), {}), ("__p__", (), {}), ("__cp__", (), {}), ("am", (), {"y": 1})):
                        x = tries(out, f"{name} {a} {k}", lambda: getattr(o, name)(*a, **k))
                    tries(out, "p", lambda: o.p)
                    tries(out, "cp", lambda: o.cp)
                    tries(out, "repr", lambda: repr(type(o.am)))
        finally:
            loop = asyncio.get_event_loop()
            asyncio.set_event_loop(None)
            loop.close()
            if on:
                ctx.cleanups.pop()()
                ctx.check(h.n or names != ("",) or _meta.logger.level != logging.DEBUG, "no logs: the check looks at nothing", "harness")
        res.append(out)
    _meta.logger.disabled = False
    ctx.log(len(res[0]), h64(res[0]))
    for a, b in zip(*res):
        ctx.check(a == b, lambda: f"{shape} {flag}={default}: {a[0]} gives {a[1]}, with debug logs {b[1]}", "differs")
    ctx.check(len(res[0]) == len(res[1]), "more with debug logs", "differs")


# ------------------------------------------------------------------------------- log daemons
def daemons(ctx):
    """a daemon logs while somebody waits, and ends with what it watches; it keeps nothing alive by itself"""
    import a_sync
    from a_sync.primitives.locks.semaphore import ThreadsafeSemaphore

    kind = ctx.pick(["event", "counter", "semaphore", "threadsafe", "priority"], "kind=")
    n = ctx.pick([1, 2], "waiters=")
    end = ctx.pick(["done", "cancelled", "mixed"], "end=")
    pauses = ctx.pick([0, 1, 3], "intervals=")
    loud(ctx)
    with Run(ctx) as r:
        async def main():
            o = {"event": lambda: a_sync.Event("ev"), "counter": lambda: a_sync.CounterLock(0, name="c"), "semaphore": lambda: a_sync.Semaphore(1, name="s"),
                 "threadsafe": lambda: ThreadsafeSemaphore(1, name="t"), "priority": lambda: a_sync.PrioritySemaphore(1, name="p")}[kind]()
            if "ev" not in kind and kind != "counter":
                await (o.acquire() if kind != "priority" else o[0].acquire())

            async def wait(i):
                if kind == "event":
                    await o.wait()
                elif kind == "counter":
                    await o.wait_for(i + 1)
                elif kind == "priority":
                    async with o[i]:
                        return i
                else:
                    async with o:
                        return i
            ts = [asyncio.ensure_future(wait(i)) for i in range(n)]
            for _ in range(4):
                await asyncio.sleep(0)
            for _ in range(pauses):
                await asyncio.sleep(310)
                ctx.check(not any(t.done() for t in ts), "a waiter ended by itself", "early")
            for i, t in enumerate(ts):
                if end == "cancelled" or end == "mixed" and i == 0:
                    t.cancel()
            await asyncio.sleep(0)
            if kind == "event":
                o.set()
            elif kind == "counter":
                o.set(n)
            elif kind == "priority":
                o[0].release()
            else:
                o.release()
            got = await asyncio.gather(*ts, return_exceptions=True)
            for i, x in enumerate(got):
                ctx.check(isinstance(x, asyncio.CancelledError) == (end == "cancelled" or end == "mixed" and i == 0), lambda: f"waiter {i}: {x!r}", "waiter")
            await asyncio.sleep(700)
            left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
            ctx.check(not left, lambda: f"{len(left)} task(s) still run: {left}", "daemon")
        r.run(main())
        bad = [m for m in r.loop.exc_contexts]
        ctx.check(not bad, lambda: f"internal error: {bad}", "callback")
        ctx.log(kind, n, end, pauses)


def executor_daemon(ctx):
    """the daemon of an executor's work item: whatever the arguments, it logs, does not fail, and ends with the item"""
    import concurrent.futures
    import functools
    from a_sync.executor import AsyncThreadPoolExecutor as Ex

    def submit(self, fn, *args, **kwargs):
        self.last = concurrent.futures.Future()
        return self.last
    real = concurrent.futures.ThreadPoolExecutor.submit
    concurrent.futures.ThreadPoolExecutor.submit = submit
    ctx.cleanups.append(lambda: setattr(concurrent.futures.ThreadPoolExecutor, "submit", real))

    def fn(*args, **kwargs):
        return args, kwargs
    f = {"function": fn, "partial": functools.partial(fn, 1), "builtin": len, "class": Ex}[ctx.pick(["function", "partial", "builtin", "class"], "fn=")]
    args = ctx.pick([(), ("x",), (1, 2), ("100%",), ("%s", "%d"), ("{",)], "args=")
    kwargs = ctx.pick([{}, {"a": 1}, {"a": "%s", "b": "5%"}], "kwargs=")
    end = ctx.pick(["done", "raised", "cancelled"], "end=")
    pauses = ctx.pick([0, 1, 3], "intervals=")
    how = ctx.pick(["submit", "run"], "how=")
    h = loud(ctx)
    with Run(ctx) as r:
        async def main():
            ex = Ex(1)
            t = asyncio.ensure_future(ex.run(f, *args, **kwargs)) if how == "run" else ex.submit(f, *args, **kwargs)
            for _ in range(4):
                await asyncio.sleep(0)
            n = h.n
            for _ in range(pauses):
                await asyncio.sleep(15.5)
                ctx.check(not t.done(), "the call ended by itself", "early")
            ctx.check(h.n - n == pauses, lambda: f"{h.n - n} logs in {pauses} intervals", "logs")
            if end == "done":
                ex.last.set_result((f, args, kwargs))
            elif end == "raised":
                ex.last.set_exception(KeyError(1))
            else:
                t.cancel()
            got = (await asyncio.gather(t, return_exceptions=True))[0]
            ctx.check(got == (f, args, kwargs) if end == "done" else type(got) is (KeyError if end == "raised" else asyncio.CancelledError), lambda: f"{got!r}", "value")
            await asyncio.sleep(40)
            left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
            ctx.check(not left, lambda: f"{len(left)} task(s) still run: {left}", "daemon")
        r.run(main())
        bad = [m for m in r.loop.exc_contexts]
        ctx.check(not bad, lambda: f"internal error: {bad}", "callback")
        ctx.log(end, pauses, how)


def scenarios(tier):
    S = []
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "known_findings.json")) as f:
        known = {(k["property"], k["key"]) for k in json.load(f)["findings"]}
    q = tier == "quick"
    for pid in OTHERS:
        mod = importlib.import_module("checks." + pid.lower())
        scs = mod.scenarios("quick")
        for i, s in enumerate(scs):
            if not q or len(scs) < 2 * HEAVY or i % HEAVY == 1:
                S.append(wrapped(pid, s, 0 if q else 1, known))
    S.append(Scenario("daemons", daemons))
    S.append(Scenario("executor-daemon", executor_daemon))
    S.append(Scenario("shapes", shapes))
    S.append(Scenario("shapes-debug-mode", shapes, env={"EZASYNC_DEBUG_MODE": "1"}))
    return S
