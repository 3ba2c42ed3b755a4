"""C23: SmartTask, SmartFuture and the smart shield — the outcome, cancellation and shielding rules of asyncio, and an exact count of
waiters, whatever task factory is installed."""
import asyncio
import contextvars
import functools

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["up to 4 waiters on one task or future; up to 2 cancellations"]


class Boom(Exception):
    pass


def make(inner_kind, waits, cancels, factory, inner_cancel=True):
    """waits: kind of await per client: d = directly, s = smart shield, ss = shield of a shield, w = asyncio.wait, r = shield; when
    cancelled, wait once more"""
    from a_sync import _smart

    def body(ctx):
        with Run(ctx) as r:
            loop = r.loop
            if factory == "smart":
                loop.set_task_factory(_smart.smart_task_factory)
            st = dict(out=None, gate=None, cancelled=False)
            counts = {}  # client -> is waiting on inner (count it)

            async def work():
                st["gate"] = loop.create_future()
                try:
                    await st["gate"]
                except asyncio.CancelledError:
                    st["cancelled"] = True
                    raise
                if st["out"] == "exc":
                    raise Boom("inner")
                return "value"

            def start():
                if inner_kind == "SmartTask":
                    return _smart.SmartTask(work(), loop=loop, name="inner")
                if inner_kind == "SmartFuture":
                    return _smart.create_future(loop=loop)
                return loop.create_task(work())
            inner = r.setup(start)
            if inner_kind == "SmartTask":
                ctx.check(inner.get_name() == "inner", "the name got lost", "name")
            smart = hasattr(inner, "num_waiters")

            def finish(out):
                st["out"] = out
                ctx.log("inner", out)
                if inner_kind == "SmartFuture":
                    inner.set_exception(Boom("inner")) if out == "exc" else inner.set_result("value")
                else:
                    st["gate"].set_result(None)

            def can():
                if inner.done() or st["out"] or st["cancelled"]:
                    return False
                return inner_kind == "SmartFuture" or st["gate"] is not None and not st["gate"].done() and bool(st["gate"]._callbacks)
            r.event("ok", lambda: finish("ok"), lambda: can() and st["out"] is None)
            r.event("exc", lambda: finish("exc"), lambda: can() and st["out"] is None)

            def cancel_inner():
                ctx.log("cancel inner")
                st["killed"] = True
                inner.cancel()
            if inner_cancel:
                r.event("inner.cancel", cancel_inner, can)

            def client(kind):
                async def fn(c):
                    c.expect = (Boom,)

                    async def once(kind):
                        if kind == "d":
                            return await inner
                        if kind in ("s", "r"):
                            return await _smart.shield(inner)
                        if kind == "ss":
                            return await _smart.shield(_smart.shield(inner))
                        done, pend = await asyncio.wait({inner})
                        ctx.check(list(done) == [inner] and not pend, "asyncio.wait", "wait")
                        return inner.result()
                    c.waiting = True
                    try:
                        try:
                            x = await once(kind)
                        except asyncio.CancelledError:
                            if not (kind == "r" and c.cancel_requested and not inner.done() and not getattr(c, "second", None)):
                                raise
                            c.second = True
                            ctx.log(c.name, "again")
                            x = await once(kind)
                        ctx.check(x == "value" and st["out"] == "ok", lambda: f"{c.name} got {x!r}, the outcome is {st['out']}", "value")
                        ctx.log(c.name, "value")
                    except Boom:
                        ctx.check(st["out"] == "exc", lambda: f"{c.name} got an exception, the outcome is {st['out']}", "value")
                        ctx.log(c.name, "exc")
                        raise
                    except asyncio.CancelledError:
                        ctx.log(c.name, "cancelled")
                        ctx.check(c.cancel_requested or inner.cancelled(), f"{c.name} was cancelled, but nobody cancelled it or the task", "spurious")
                        c.cancel_requested = True
                        raise
                    finally:
                        c.waiting = False
                return fn
            for i, k in enumerate(waits):
                c = r.client("ABCD"[i], client(k))
                c.kind, c.waiting = k, False
                if i in cancels:
                    e = r.cancel_event(c)
                    if k == "r":
                        e.repeat, n = True, [0]
                        fire, pred = e.fn, e.pred

                        def again(fire=fire, n=n):
                            n[0] += 1
                            fire()
                        e.fn, e.pred = again, lambda pred=pred, n=n: n[0] < 2 and pred()

            def quiescent():
                direct = [c for c in r.clients if c.kind == "d" and c.cancel_requested and c.task is not None]
                if not inner.done():
                    ctx.check(not any(c.done and not c.cancel_requested for c in r.clients), "someone is done although the task is not", "early")
                    if smart:
                        n = sum(1 for c in r.clients if c.waiting and c.kind != "w")
                        # the inner one of two nested shields is pending still when its waiter was cancelled: it may count
                        k = sum(1 for c in r.clients if c.kind == "ss" and c.task is not None and not c.waiting)
                        ctx.check(n <= inner.num_waiters <= n + k, lambda: f"num_waiters is {inner.num_waiters}, {n} are waiting", "count")
                else:
                    if inner.cancelled():
                        ctx.check(direct or st.get("killed"), "the task was cancelled although only shielded waiters were", "shield")
                    if smart:
                        ctx.check(inner.num_waiters == 0, lambda: f"num_waiters is {inner.num_waiters} on a done one", "count")
                    ctx.check(all(c.done for c in r.clients if c.task is not None), "the task is done, but someone still waits", "lost")
                if not inner.done() and (st["out"] and not direct):
                    ctx.fail("the inner task never finished", "lost")
            loop.on_quiescent = quiescent
            r.go(deadlock_ok=True)
            quiescent()
            if not inner.done() and inner_kind != "SmartFuture" or not inner.done():
                if st["out"] is None:
                    finish("ok")
                    r.settle()
                    ctx.check(inner.done() and not inner.cancelled() and inner.result() == "value", "the task did not survive", "shield")
            for c in r.clients:
                if c.task is None:
                    continue
                ctx.check(c.done, lambda: f"{c.name} still waits", "lost")
            # any later await gets the same outcome
            res = r.try_run(_aw(inner))
            want = "cancelled" if inner.cancelled() else "exc" if st["out"] == "exc" else "ok"
            ctx.check(res[0] == want, lambda: f"a late await gives {res}, should be {want}", "late")
            res = r.try_run(_late(_smart, inner))
            ctx.check(res[0] == want, lambda: f"a late shield gives {res}, should be {want}", "late")
            if r.loop.exc_contexts:
                bad = [m for m in r.loop.exc_contexts if "Exception in callback" in m[0]]
                ctx.check(not bad, lambda: f"internal error: {bad}", "callback")

    return body


def relay(ctx, inner_kind, waits, cancels):
    """a smart task that waits for the inner one counts for as many as wait for it, and for itself at least"""
    from a_sync import _smart

    with Run(ctx) as r:
        loop = r.loop
        st = dict(gate=None)

        async def work():
            st["gate"] = loop.create_future()
            await st["gate"]
            return "value"
        inner = r.setup(lambda: _smart.SmartTask(work(), loop=loop) if inner_kind == "SmartTask" else _smart.create_future(loop=loop))
        mid = r.setup(lambda: _smart.SmartTask(_aw(inner), loop=loop))

        def finish():
            ctx.log("finish")
            inner.set_result("value") if inner_kind == "SmartFuture" else st["gate"].set_result(None)
        r.event("finish", finish, lambda: not inner.done() and (inner_kind == "SmartFuture" or st["gate"] is not None and not st["gate"].done()))

        def client(kind):
            async def fn(c):
                c.waiting = True
                try:
                    t = mid if kind[0] == "m" else inner
                    x = await (_smart.shield(t) if kind.endswith("s") else t)
                    ctx.check(x == "value", lambda: f"{c.name} got {x!r}", "value")
                except asyncio.CancelledError:
                    ctx.check(c.cancel_requested or mid.cancelled() or inner.cancelled(), f"{c.name} was cancelled for no reason", "spurious")
                    c.cancel_requested = True
                    raise
                finally:
                    c.waiting = False
            return fn
        for i, k in enumerate(waits):
            c = r.client("ABCD"[i], client(k))
            c.kind, c.waiting = k, False
            if i in cancels:
                r.cancel_event(c)

        def quiescent():
            if inner.done():
                ctx.check(inner.num_waiters == mid.num_waiters == 0, "waiters of a done one", "count")
                return
            m = 0 if mid.done() else sum(c.waiting for c in r.clients if c.kind[0] == "m")
            d = sum(c.waiting for c in r.clients if c.kind[0] == "i")
            want = d + (0 if mid.done() else max(m, 1))
            ctx.log("count", inner.num_waiters)
            ctx.check(mid.num_waiters == m, lambda: f"num_waiters is {mid.num_waiters}, {m} are waiting", "count")
            ctx.check(inner.num_waiters == want, lambda: f"num_waiters is {inner.num_waiters}: {d} wait and a smart task with {m} waiters", "count")
        loop.on_quiescent = quiescent
        r.go(deadlock_ok=True)
        quiescent()


async def _aw(x):
    return await x


async def _late(_smart, x):
    return await _smart.shield(x)


def programs(ctx):
    """ordinary asyncio programs give the same with the smart task factory as without"""
    from a_sync import _smart
    import a_sync

    var = contextvars.ContextVar("var", default=0)

    async def taskgroup():
        out = []

        async def w(i):
            await asyncio.sleep(0)
            out.append(i)
            return i
        async with asyncio.TaskGroup() as tg:
            ts = [tg.create_task(w(i), name=f"n{i}") for i in range(3)]
        return out, [t.result() for t in ts], [t.get_name() for t in ts]

    async def group_error():
        async def bad():
            raise Boom("x")

        async def slow():
            try:
                await asyncio.sleep(10)
            except asyncio.CancelledError:
                got.append("cancelled")
                raise
        got = []
        try:
            async with asyncio.TaskGroup() as tg:
                tg.create_task(slow())
                tg.create_task(bad())
        except* Boom as eg:
            got.append(len(eg.exceptions))
        return got

    async def context():
        async def w():
            return var.get()
        c = contextvars.copy_context()
        c.run(var.set, 7)
        return await asyncio.create_task(w(), context=c), await asyncio.create_task(w())

    async def timeout():
        try:
            async with asyncio.timeout(1):
                await asyncio.create_task(asyncio.sleep(5))
        except TimeoutError:
            return "timeout"

    async def wait_for():
        t = asyncio.create_task(asyncio.sleep(5))
        try:
            await asyncio.wait_for(t, 1)
        except asyncio.TimeoutError:
            return t.cancelled()

    async def gather():
        async def w(i):
            await asyncio.sleep(3 - i)
            if i == 1:
                raise Boom(i)
            return i
        return [repr(x) for x in await asyncio.gather(*map(w, range(3)), return_exceptions=True)]

    async def shared():
        t = asyncio.create_task(asyncio.sleep(1, "v"))
        return await asyncio.gather(*(asyncio.create_task(_aw(t)) for _ in range(3)))

    async def cancel_shared():
        t = asyncio.create_task(asyncio.sleep(1, "v"))
        a, b = asyncio.create_task(_aw(t)), asyncio.create_task(_aw(t))
        await asyncio.sleep(0)
        a.cancel()
        r = await asyncio.gather(a, b, return_exceptions=True)
        return [type(x).__name__ for x in r], t.cancelled()

    async def rewait():
        t = asyncio.create_task(asyncio.sleep(3, "v"))

        async def stubborn():
            for _ in range(3):
                try:
                    return await asyncio.shield(t)
                except asyncio.CancelledError:
                    pass
        s = asyncio.create_task(stubborn())
        await asyncio.sleep(0)
        s.cancel()
        await asyncio.sleep(0)
        s.cancel()
        return await s

    async def uncancel():
        t = asyncio.create_task(asyncio.sleep(3))
        t.cancel("msg")
        try:
            await t
        except asyncio.CancelledError as e:
            return e.args, t.cancelling()

    async def library():
        @a_sync.a_sync("async")
        async def f(x):
            await asyncio.sleep(x)
            return x
        m = f.map([3, 1, 2])
        order = [k async for k, v in m.map()]
        d = await a_sync.gather({1: f(1), 2: f(2)})
        q = a_sync.ProcessingQueue(f, 2)
        return order, d, await asyncio.gather(q(1), q(2)), [await x for x in a_sync.as_completed([f(2), f(1)])]

    P = {k: v for k, v in locals().items() if asyncio.iscoroutinefunction(v)}
    name = ctx.pick(list(P), "program=")
    res = []
    for smart in (False, True):
        with Run(ctx) as r:
            r.loop.set_task_factory(_smart.smart_task_factory if smart else None)
            how = "create_task"
            x = r.try_run(P[name]())
            res.append((x[0], repr(x[1])) + tuple(m for m, e in r.loop.exc_contexts if "Exception in callback" in m))
    ctx.log(name, res)
    ctx.check(res[0] == res[1], lambda: f"{name}: {res[0]} with asyncio's tasks, {res[1]} with SmartTask", "program")


def setfactory(ctx):
    """set_smart_task_factory: on the given loop, the running one or the current one; runs under asyncio.Runner"""
    from a_sync import _smart

    how = ctx.pick(["given", "running", "runner", "current"], "how=")
    if how == "runner":
        with asyncio.Runner() as runner:
            _smart.set_smart_task_factory(runner.get_loop())

            async def main():
                return type(asyncio.current_task()).__name__
            try:
                got = runner.run(main())
            except TypeError as e:
                got = repr(e)
    else:
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            async def t():
                return type(asyncio.current_task()).__name__
            if how == "given":
                _smart.set_smart_task_factory(loop)
            elif how == "current":
                _smart.set_smart_task_factory()

            async def main():
                if how == "running":
                    _smart.set_smart_task_factory()
                return await asyncio.create_task(t())
            got = loop.run_until_complete(main())
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    ctx.check(got == "SmartTask", lambda: f"{how}: {got}", "factory")


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, *a, **k):
        S.append(Scenario(name, make(*a, **k), bound))

    b = 1 if q else 2
    for inner in ("SmartTask", "SmartFuture", "task"):
        for fac in ("default", "smart"):
            n = f"{inner}-{fac}"
            add(f"{n}-s-s-d", b, inner, ["s", "s", "d"], (0, 1), fac)
            add(f"{n}-s-d-d", b, inner, ["s", "d", "d"], (0, 1), fac)
            add(f"{n}-ss-w", b, inner, ["ss", "w", "s"], (0, 1), fac)
            add(f"{n}-rewait", b, inner, ["r", "s"], (0,), fac)
    if not q:
        add("SmartTask-4", 2, "SmartTask", ["s", "d", "ss", "w"], (0, 2, 3), "default")
    for inner in ("SmartTask", "SmartFuture"):
        S.append(Scenario(f"relay-{inner}", functools.partial(relay, inner_kind=inner, waits=["ms", "ms", "is"], cancels=(0, 1)), b))
        S.append(Scenario(f"relay-direct-{inner}", functools.partial(relay, inner_kind=inner, waits=["m", "ms", "i"], cancels=(0, 1)), b))
    S.append(Scenario("programs", programs, 0))
    S.append(Scenario("set-factory", setfactory, 0))
    return S
