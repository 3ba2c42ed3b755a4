"""C01: @a_sync functions — every call runs the function exactly once, in the mode that flag, default and kind ask for, with its own
arguments; a sync call inside a running loop is refused; what can not be dual-mode is refused whatever was decorated before."""
import asyncio
import functools
import gc
import inspect
import threading

from mc.explore import Scenario
from checks.c15 import Inline

ASSUMPTIONS = ["functions of up to 2 arguments; flags as keywords; calls without a loop, inside a running loop and in a thread without a "
               "loop; real asyncio event loops; the executor of sync functions runs them in line or in a thread"]


class Boom(Exception):
    pass


class World:
    def __enter__(self):
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)
        return self

    def __exit__(self, *a):
        asyncio.set_event_loop(None)
        self.loop.close()


def in_thread(fn):
    box = {}

    def run():
        try:
            box["v"] = fn()
        except BaseException as e:  # noqa
            box["e"] = e
        finally:
            try:
                loop = asyncio.get_event_loop_policy()._local._loop
                loop and loop.close()
            except AttributeError:
                pass

    t = threading.Thread(target=run)
    t.start()
    t.join(60)
    if t.is_alive():
        return "hang", None
    return ("exc", box["e"]) if "e" in box else ("value", box["v"])


def attempt(w, where, thunk):
    """-> (value | coro | exc | hang, what)"""
    def call():
        try:
            x = thunk()
        except BaseException as e:  # noqa
            return "exc", e
        return ("awaitable", x) if inspect.isawaitable(x) else ("value", x)

    async def finish(x):
        try:
            return "value", await asyncio.wait_for(x, 60)
        except BaseException as e:  # noqa
            return "exc", e

    if where == "plain":
        k, v = call()
        if k == "awaitable":
            return "async", w.loop.run_until_complete(finish(v))
        return "sync", (k, v)
    if where == "loop":
        async def main():
            k, v = call()
            if k == "awaitable":
                return "async", await finish(v)
            return "sync", (k, v)
        return w.loop.run_until_complete(main())

    def th():
        k, v = call()
        if k == "awaitable":
            return "async", asyncio.run(finish(v))
        return "sync", (k, v)
    r = in_thread(th)
    return r[1] if r[0] == "value" else ("sync", r)


KINDS = ("async", "sync")
FORMS = {
    "bare": lambda a, f, d, m: a(f) if d is None and not m else a(f, default=d, **m) if d else a(f, **m),
    "call": lambda a, f, d, m: a(**m)(f) if d is None else a(default=d, **m)(f),
    "pos": lambda a, f, d, m: a(None, d, **m)(f) if d is None else a(d, **m)(f),
    "pos2": lambda a, f, d, m: a(f, d, **m),
}
FLAGS = [{}, {"sync": True}, {"sync": False}, {"asynchronous": True}, {"asynchronous": False},
         {"sync": True, "asynchronous": True}, {"sync": False, "asynchronous": True}]


def expected(kind, default, flags):
    if len(flags) > 1:
        return "toomany"
    if "sync" in flags:
        return "sync" if flags["sync"] else "async"
    if "asynchronous" in flags:
        return "async" if flags["asynchronous"] else "sync"
    return default or kind


def modes(ctx, kind, what, mods=None, env_default=None, deep=False):
    from a_sync import a_sync
    from a_sync import exceptions as X

    with World() as w:
        form = ctx.pick(list(FORMS), "form=")
        default = ctx.pick([None, "sync", "async"], "default=")
        where = ctx.pick(["plain", "loop", "thread"], "in=")
        flags = dict(ctx.pick(FLAGS, "flags="))
        outcome = ctx.pick(["ok", "exc", "none"], "outcome=")
        shape = ctx.pick(["pos", "kw", "mixed"], "args=")
        ex = ctx.pick(["inline", "default"], "executor=") if kind == "sync" and deep else "inline"
        calls = []

        def work(a, b):
            calls.append((a, b))
            if outcome == "exc":
                raise Boom(a, b)
            return (a, b) if outcome == "ok" else None

        if kind == "async":
            async def f(a, b=2):
                await asyncio.sleep(0)
                return work(a, b)
        else:
            def f(a, b=2):
                return work(a, b)
        m = dict(mods or {})
        if kind == "sync" and ex == "inline":
            m["executor"] = Inline()
        if what == "method":
            class H:
                if kind == "async":
                    async def f(self, a, b=2):
                        await asyncio.sleep(0)
                        return work(a, b)
                else:
                    def f(self, a, b=2):
                        return work(a, b)
            f = H().f
        elif what == "partial":
            f = functools.update_wrapper(functools.partial(f), f)
        af = FORMS[form](a_sync, f, default, m)
        if form in ("pos", "pos2"):  # default=None is given explicitly: not what the environment variable is for
            env_default = None
        a, k = {"pos": ((1, 3), {}), "kw": ((), {"a": 1, "b": 3}), "mixed": ((1,), {"b": 3})}[shape]
        for again in range(2):  # the second call gets its mode anew
            calls.clear()
            given = dict(flags)
            mode, (how, v) = attempt(w, where, lambda: af(*a, **k, **given))
            ctx.log(mode, how, v if how == "value" else type(v).__name__)
            want = expected(kind, default or env_default, flags)
            if want == "toomany":
                ctx.check(how == "exc" and isinstance(v, X.TooManyFlags) and not calls, lambda: f"both flags: {how} {v!r}, calls {calls}", "flags")
                continue
            if want == "sync" and kind == "async" and where == "loop":
                ctx.check(mode == "sync" and how == "exc" and isinstance(v, X.SyncModeInAsyncContextError) and not calls,
                          lambda: f"a sync call inside a running loop: {mode} {how} {v!r}, calls {calls}", "refused")
                continue
            ctx.check(mode == want, lambda: f"the call was {mode} instead of {want} ({how} {v!r})", "mode")
            ctx.check(calls == [(1, 3)], lambda: f"the function was called with {calls}", "calls")
            if outcome == "exc":
                ctx.check(how == "exc" and type(v) is Boom and v.args == (1, 3), lambda: f"{how} {v!r}", "exception")
            else:
                ctx.check(how == "value" and v == ((1, 3) if outcome == "ok" else None), lambda: f"{how} {v!r}", "value")


class Rt(NotImplementedError):
    """a RuntimeError of the program's own"""


class Base(BaseException):
    pass


ERRORS = [lambda: RuntimeError("something"), lambda: RuntimeError("This event loop is already running", 1), lambda: Rt("x"), lambda: RecursionError("y"),
          lambda: TypeError("f() got an unexpected keyword argument 'sync'"), lambda: AttributeError("sync"), lambda: KeyError("sync"),
          lambda: ValueError("z"), lambda: TimeoutError("t"), lambda: StopAsyncIteration("u"), lambda: OSError(2, "v"), lambda: Base("w")]


def errors(ctx, kind, mods=None):
    """the exception of the function reaches the caller as it is (asyncio copies a TimeoutError of an executor)"""
    from a_sync import a_sync

    with World() as w:
        default = ctx.pick([None, "sync", "async"], "default=")
        where = ctx.pick(["plain", "loop", "thread"], "in=")
        flags = dict(ctx.pick([{}, {"sync": True}, {"sync": False}], "flags="))
        exc = ctx.pick(ERRORS, "error=")()
        calls = []
        if kind == "async":
            async def f(a):
                await asyncio.sleep(0)
                calls.append(a)
                raise exc
        else:
            def f(a):
                calls.append(a)
                raise exc
        m = dict(mods or {})
        if kind == "sync":
            m["executor"] = Inline()
        want = expected(kind, default, flags)
        if want == "sync" and kind == "async" and where == "loop":
            return
        mode, (how, v) = attempt(w, where, lambda: a_sync(default=default, **m)(f)(1, **flags))
        ctx.log(mode, how, type(v).__name__)
        ctx.check(mode == want and calls == [1], lambda: f"{mode} {how} {v!r}, calls {calls}", "calls")
        ctx.check(how == "exc" and type(v) is type(exc) and v.args == exc.args, lambda: f"the function raised {exc!r}, the {mode} call gave {how} {v!r}", "exception")


DEFS = {
    "plain": ("def f(a, b=2): return (a, b)", None),
    "async": ("async def f(a, b=2): return (a, b)", None),
    "sync-arg": ("def f(a, sync=2): return a", RuntimeError),
    "async-arg": ("async def f(asynchronous, b=2): return b", RuntimeError),
    "kwonly": ("def f(a, *, sync=None): return a", RuntimeError),
    "kwonly2": ("async def f(a, *, asynchronous): return a", RuntimeError),
    "gen": ("def f(a, b=2): yield a", ValueError),
    "agen": ("async def f(a, b=2): yield a", ValueError),
}


def decorate(ctx, depth, kinds, keepable):
    """every history of decorations and deaths of functions"""
    from a_sync import a_sync

    alive = []
    gc.disable()
    try:
        for i in range(depth):
            kind = ctx.pick(kinds, "decorate=")
            keep = ctx.pick(["drop", "keep"], "then=") if keepable else "drop"
            again = ctx.pick([1, 2], "times=")
            src, want = DEFS[kind]
            ns = {}
            exec(src, ns)
            f = ns.pop("f")
            for j in range(again):
                try:
                    af = a_sync(f, executor=Inline()) if "async" not in src else a_sync(f)
                    exc = None
                except Exception as e:
                    af, exc = None, type(e)
                    del e
                ctx.log(kind, exc)
                ctx.check(exc is want, lambda: f"decoration {j + 1} of {src!r} after {i} others: {exc}, not {want}", "validation")
            if keep == "keep":
                alive.append((f, af))
            del f, af
            ns.clear()
            gc.collect(0)
    finally:
        gc.enable()


def maps(ctx, kind):
    """map, any, all, min, max, sum of a function"""
    from a_sync import a_sync

    with World() as w:
        default = ctx.pick([None, "sync", "async"], "default=")
        what = ctx.pick(["map", "any", "all", "min", "max", "sum"], "what=")
        vals = [ctx.pick([0, 1, 2], "value=") for _ in range(ctx.pick([1, 2, 3], "n="))]
        conc = ctx.pick([None, 1, 2], "concurrency=")
        two = ctx.pick([False, True], "two iterables=")
        calls = []
        if kind == "async":
            async def f(i, off=0):
                calls.append(i)
                await asyncio.sleep(0)
                return vals[i] + off
        else:
            def f(i, off=0):
                calls.append(i)
                return vals[i] + off
        m = {"executor": Inline()} if kind == "sync" else {}
        af = a_sync(default=default, **m)(f)
        off = ctx.pick([0, -1], "off=")
        kw = {"off": off} if off else {}
        keys = list(range(len(vals)))
        its = [keys[:1], keys[1:]] if two else [keys]

        async def main():
            r = getattr(af, what)(*its, concurrency=conc, **kw)
            return dict(await r) if what == "map" else await r

        res = w.loop.run_until_complete(asyncio.wait_for(main(), 60))
        vs = [v + off for v in vals]
        want = dict(zip(keys, vs)) if what == "map" else {"any": any, "all": all, "min": min, "max": max, "sum": sum}[what](vs)
        ctx.log(res)
        ctx.check(res == want, lambda: f"{what} of {vs}: {res}", "value")
        ctx.check(len(set(calls)) == len(calls) and (len(calls) == len(keys) or what in ("any", "all")), lambda: f"calls {calls}", "calls")


def wrong(ctx):
    """what is refused at decoration"""
    from a_sync import a_sync

    async def f():
        return 1
    case = ctx.pick(["default", "default2", "modifier", "not-callable"], "case=")
    try:
        if case == "default":
            a_sync(default="asink")
        elif case == "default2":
            a_sync(f, default="asink")
        elif case == "modifier":
            a_sync(f, semafore=1)
        else:
            a_sync(default="sync")(object())
        exc = None
    except (ValueError, TypeError) as e:
        exc = e
    ctx.log(case, type(exc).__name__)
    ctx.check(exc is not None, f"{case} is accepted", "validation")


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, fn, env=None, **k):
        S.append(Scenario(name, functools.partial(fn, **k), 0, env=env))

    for kind in KINDS:
        for what in ("function", "method", "partial"):
            add(f"{kind}-{what}", modes, kind=kind, what=what, deep=not q)
        add(f"{kind}-cache", modes, kind=kind, what="function", mods={"semaphore": 2, "runs_per_minute": 60000})
        add(f"{kind}-errors", errors, kind=kind)
        add(f"{kind}-errors-modifiers", errors, kind=kind, mods={"semaphore": 2, "runs_per_minute": 60000, "ram_cache_maxsize": 8})
        for d in ("sync", "async"):
            add(f"{kind}-env-{d}", modes, env={"A_SYNC_DEFAULT_MODE": d}, kind=kind, what="function", env_default=d)
        add(f"maps-{kind}", maps, kind=kind)
    add("decorate", decorate, depth=3 if q else 4, kinds=["plain", "async", "sync-arg", "async-arg", "gen", "agen"], keepable=False)
    add("decorate-keep", decorate, depth=2 if q else 3, kinds=list(DEFS), keepable=True)
    add("wrong", wrong)
    return S
