"""C25: instances and decorated functions outlive loops — used from one event loop after another, over pauses of any length, with calls
left in flight, they go on working, disturb no timer of the program, and are freed when the program drops them."""
import asyncio
import gc
import weakref

from mc.explore import Scenario
from mc.loop import Run
from checks.c15 import Inline

ASSUMPTIONS = ["sequences of up to 5 operations on up to 2 instances; event loops one after another in one thread; virtual time"]


class Payload:
    """what the instance holds"""


def classes(mode, st):
    """-> make(), members. Every member gives (name, payload, argument)"""
    import a_sync
    from a_sync.iter import ASyncGeneratorFunction

    async def gated(name, o, i):
        st["runs"] += 1
        if st["block"]:
            await asyncio.get_running_loop().create_future()
        return name, o.n, i

    if mode in ("async", "sync"):
        class Cls(a_sync.ASyncGenericBase):
            def __init__(self, sync):
                super().__init__()
                self.sync = sync
                self.n = st["made"]
                self.payload = Payload()

            async def m(self, i):
                return await gated("m", self, i)

            @a_sync.aka.property
            async def p(self):
                return await gated("p", self, None)

            @a_sync.aka.cached_property
            async def cp(self):
                return await gated("cp", self, None)

            @a_sync.a_sync(semaphore=1)
            async def s(self, i):
                return await gated("s", self, i)

            @a_sync.a_sync(cache_type="memory")
            async def c(self, i):
                return await gated("c", self, i)

            @a_sync.a_sync(ram_cache_ttl=60)
            async def t(self, i):
                return await gated("t", self, i)

            @a_sync.a_sync(default="async", executor=Inline())
            def d(self, i):
                return "d", self.n, i

            async def g(self, i):
                yield await gated("g", self, i)
        return lambda: Cls(mode == "sync")

    class Plain:
        def __init__(self):
            self.n = st["made"]
            self.payload = Payload()

        @a_sync.aka.property("async")
        async def p(self):
            return await gated("p", self, None)

        @a_sync.aka.cached_property("async")
        async def cp(self):
            return await gated("cp", self, None)

        @ASyncGeneratorFunction
        async def g(self, i):
            yield await gated("g", self, i)
    return Plain


MEMBERS = ["m", "d", "p", "cp", "s", "c", "g"]  # t: with a time to live


def call(o, name, i, mode):
    """-> awaitable or value, as the mode of the instance asks for"""
    if name in ("p", "cp"):
        return getattr(o, name)
    if name == "g":
        return getattr(o, name)(i)
    if name == "d" and mode == "sync":
        return o.d(i, sync=True)
    return getattr(o, name)(i)


def histories(ctx, depth, members, modes, closes, uncut=("d", "c", "t")):
    """uncut: not left in flight"""
    mode = ctx.pick(modes, "mode=")
    st = dict(made=0, block=False, runs=0)
    make = classes(mode, st)
    objs, dropped = {}, []
    vtime = 1000.0
    cached = {}  # instance -> members with a cached value

    def new(k):
        st["made"] += 1
        objs[k] = make()
        cached[k] = set()

    lru, gens, cut, expires = set(), {}, set(), {}
    new("x")
    step = 0
    more = True
    while more:
        more = False
        with Run(ctx) as r:
            r.loop.vtime = vtime
            fired, timers, flight = [], [], set()

            def freed(during):
                gc.collect()
                for k, refs in dropped:
                    # (a memory cache, like functools.lru_cache, keeps the instances whose results it has)
                    # (and a generator method keeps its instance for five minutes, so that it can be used on a temporary one)
                    if k not in during and k not in lru and not (k in gens and r.loop is not None and r.loop.vtime < gens[k] + 300):
                        ctx.check(all(w() is None for w in refs), lambda: f"what {k} held lives on: {[w() for w in refs]}", "leak")

            while step < depth:
                ops = []
                for k in objs:
                    ops += [("call", k, m) for m in members if (k, m) not in flight]
                    if len(flight) < 1:
                        ops += [("leave", k, m) for m in members if m not in uncut and m not in cached[k]] if mode != "sync" else []
                    ops.append(("drop", k))
                if len(objs) < 2 and st["made"] < 2:
                    ops.append(("new", "y"))
                ops += [("pause", 1), ("pause", 301)]
                if len(timers) < 2:
                    ops.append(("timer", 100))
                    ops.append(("timer", 1000))
                if step < depth - 1:
                    ops += [("loop", c) for c in closes]
                op = ctx.pick(ops, f"{step}:")
                step += 1
                if op[0] == "call":
                    _, k, m = op
                    o = objs[k]
                    want = (m, o.n, None if m in ("p", "cp") else step)
                    arg = step
                    if m in ("c", "t"):
                        arg = 5
                        want = (m, o.n, 5)
                    if m == "t" and r.loop.vtime >= expires.get(k, (0,))[0]:
                        cached[k].discard("t")
                    runs = st["runs"]

                    try:
                        if mode == "sync" and m != "g":
                            x = call(o, m, arg, mode)
                        elif m == "g":
                            async def consume():
                                return [y async for y in call(o, m, arg, mode)]
                            x = r.run(consume(), f"{op}")[0]
                        else:
                            async def once():
                                return await call(o, m, arg, mode)
                            x = r.run(once(), f"{op}")
                    except asyncio.CancelledError:
                        ctx.fail(f"{op} was cancelled, but nobody cancelled it", "cut-cache" if (k, m) in cut and m in ("c", "t") else "cancelled")
                    ctx.check(x == want, lambda: f"{op} gave {x!r}, not {want!r}", "value")
                    hit = m in cached[k]
                    ctx.check(m == "d" or st["runs"] - runs == (0 if hit else 1), lambda: f"{op} ran the function {st['runs'] - runs} times, cached: {hit}",
                              "ttl-loop" if m == "t" and not hit and k in expires and expires[k][1] is not r.loop else "runs")
                    if m in ("cp", "c", "t"):
                        cached[k].add(m)
                        if m == "t" and not hit:
                            expires[k] = (r.loop.vtime + 60, r.loop)
                    if m in ("c", "t"):
                        lru.add(k)
                    if m == "g":
                        gens[k] = r.loop.vtime
                    del o, x
                elif op[0] == "leave":
                    _, k, m = op
                    st["block"] = True
                    o = objs[k]
                    if m == "g":
                        async def forever(o=o):
                            async for y in o.g(5):
                                pass
                    else:
                        async def forever(o=o):
                            await call(o, m, 5, mode)
                    r.loop.create_task(forever())
                    r.settle()
                    st["block"] = False
                    flight.add((k, m))
                    if m in ("c", "t"):
                        lru.add(k)
                    if m == "g":
                        gens[k] = r.loop.vtime
                    del o, forever
                elif op[0] == "drop":
                    o = objs.pop(op[1])
                    dropped.append((op[1], [weakref.ref(o), weakref.ref(o.payload)]))
                    del o
                elif op[0] == "new":
                    new(op[1])
                elif op[0] == "pause":
                    r.run(asyncio.sleep(op[1]))
                elif op[0] == "timer":
                    due = r.loop.vtime + op[1]
                    timers.append(due)
                    r.loop.call_at(due, lambda due=due, loop=r.loop: fired.append((due, loop.time())))
                else:
                    more = True
                r.settle()
                ctx.log(*op)
                want = [(t, t) for t in sorted(timers) if t <= r.loop.vtime]
                ctx.check(sorted(fired) == want, lambda: f"timers fired (due, at) {fired}, should be {want} at {r.loop.vtime}", "timer")
                freed({k for k, m in flight})
                if more:
                    break
            if not more:
                left = [t for t in timers if t > r.loop.vtime]
                if left:
                    r.run(asyncio.sleep(max(left) - r.loop.vtime + 1))
                    want = [(t, t) for t in sorted(timers)]
                    ctx.check(sorted(fired) == want, lambda: f"timers fired (due, at) {fired}, should be {want}", "timer")
            bad = [m for m in r.loop.exc_contexts if "Exception in callback" in m[0]]
            ctx.check(not bad, lambda: f"internal error: {bad}", "callback")
            vtime = r.loop.vtime
            cut |= flight
            if more and op[1] == "abandon":
                # the loop is closed although tasks are pending: they are destroyed
                for t in asyncio.all_tasks(r.loop):
                    t._log_destroy_pending = False
                t = None
                asyncio.set_event_loop(None)
                r.loop._ready.clear()
                r.loop._scheduled.clear()
                r.loop.close()
                gc.collect()
        freed(())


KINDS = ["async def", "def", "default sync", "semaphore", "rpm", "memory", "ttl", "mapping", "mapping-limited", "mapping-keys", "map", "map-kw",
         "map-afn", "queue", "smart", "gathered", "iterable", "filter", "sorter", "genfunc", "future"]


def wrap(kind, fn, held):
    """one way to hand a coroutine function to the library -> use(i): a coroutine that gives what the function gives for i"""
    import a_sync
    from a_sync import TaskMapping, ProcessingQueue, SmartProcessingQueue
    from a_sync.iter import ASyncGeneratorFunction, ASyncIterable, ASyncIterator

    def sfn(i, fn=fn):
        c = fn(i)
        try:
            c.send(None)
        except StopIteration as e:
            return e.value
        raise AssertionError

    mods = {"async def": {}, "default sync": dict(default="sync"), "semaphore": dict(semaphore=1), "rpm": dict(runs_per_minute=600),
            "memory": dict(cache_type="memory"), "ttl": dict(ram_cache_ttl=60)}
    if kind in mods:
        f = a_sync.a_sync(**mods[kind])(fn) if mods[kind] else a_sync.a_sync(fn)
        return f if kind != "default sync" else lambda i: f(i, sync=False)
    if kind == "def":
        return a_sync.a_sync(default="async", executor=Inline())(sfn)
    if kind.startswith("mapping"):
        if kind == "mapping-keys":
            async def use(i):
                m = TaskMapping(fn, [i])
                return [v async for v in m.values()][0]
            return use
        m = TaskMapping(fn, concurrency=1 if kind.endswith("limited") else None)

        async def use(i):
            return await m[i]
        return use
    if kind == "map":
        async def use(i):
            return [v async for _, v in a_sync.map(fn, [i])][0]
        return use
    if kind == "map-kw":
        async def use(i):
            return (await a_sync.map(fn, [i], [i + 1]))[i]
        return use
    if kind == "map-afn":
        f = a_sync.a_sync(fn)

        async def use(i):
            return (await f.map([i]))[i]
        return use
    if kind in ("queue", "smart"):
        q = (ProcessingQueue if kind == "queue" else SmartProcessingQueue)(fn, 1)

        async def use(i):
            return await q(i)
        return use
    if kind == "gathered":
        async def use(i):
            return (await a_sync.gather({i: fn(i)}))[i]
        return use
    if kind == "genfunc":
        @ASyncGeneratorFunction
        async def gen(i):
            yield await fn(i)

        async def use(i):
            return [x async for x in gen(i)][0]
        return use
    if kind == "future":
        async def use(i):
            return await a_sync.ASyncFuture(fn(i))
        return use

    class Source:
        def __init__(self, i):
            self.i = i

        async def __aiter__(self):
            yield await fn(self.i)

    async def use(i):
        if kind == "iterable":
            return [x async for x in ASyncIterable(Source(i))][0]
        if kind == "filter":
            async def p(x):
                return x is not None and fn
            return (await ASyncIterable(Source(i)).filter(p))[0]

        async def key(x):
            return fn and 0
        return (await ASyncIterator(Source(i).__aiter__()).sort(key=key))[0]
    return use


def callables(ctx, depth, closes):
    """a callable that was handed to the library works loop after loop, and is freed with what the program got for it"""
    kind = ctx.pick(KINDS, "kind=")
    st = dict(block=False, runs=0)

    def make():
        p = Payload()

        async def fn(i, p=p):
            st["runs"] += 1
            if st["block"]:
                await asyncio.get_running_loop().create_future()
            return "f", i
        return wrap(kind, fn, st), [weakref.ref(fn), weakref.ref(p)]

    vtime, step, more, used = 1000.0, 0, True, 0
    use, refs = make()
    dropped = []
    while more:
        more = False
        with Run(ctx) as r:
            r.loop.vtime = vtime
            flight = False
            while step < depth:
                ops = ["call", "pause", "drop"]
                if kind not in ("queue", "smart", "mapping-limited"):  # (bound to their loop, like asyncio.Queue)
                    ops += ["loop-" + c for c in closes]
                if not flight and kind != "def":
                    ops.append("leave")
                op = ctx.pick(ops, f"{step}:")
                step += 1
                if op in ("call", "leave"):
                    used = r.loop.vtime
                if op == "call":
                    if flight and kind in ("semaphore", "queue", "smart", "mapping-limited"):
                        continue  # waits for the call in flight
                    try:
                        x = r.run(use(step), op)
                    except asyncio.CancelledError:
                        ctx.fail("the call was cancelled, but nobody cancelled it", "cancelled")
                    ctx.check(x == ("f", step), lambda: f"{x}", "value")
                elif op == "leave":
                    st["block"] = True
                    flight = True

                    async def forever(use=use, i=step):
                        await use(i)
                    r.loop.create_task(forever())
                    r.settle()
                    st["block"] = False
                    del forever
                elif op == "pause":
                    r.run(asyncio.sleep(301))
                elif op == "drop":
                    # (a generator method, which the mappings use, keeps its instance for five minutes)
                    dropped.append((float("inf") if flight else used + 300 if kind.startswith("map") else 0, refs))
                    use, refs = make()
                    flight = False
                else:
                    more = True
                r.settle()
                ctx.log(op)
                gc.collect()
                for since, rs in dropped:
                    if r.loop.vtime >= since:
                        ctx.check(all(w() is None for w in rs), lambda: f"what the callable held lives on: {[w() for w in rs]}", "leak")
                if more:
                    break
            vtime = r.loop.vtime
        dropped = [(0, rs) for _, rs in dropped]
    use = None
    gc.collect()
    for _, rs in dropped + [(0, refs)]:
        ctx.check(all(w() is None for w in rs), lambda: f"what the callable held lives on: {[w() for w in rs]}", "leak")


def scenarios(tier):
    q = tier == "quick"
    d = 4 if q else 5
    S = []

    def add(name, fn, *a, **k):
        S.append(Scenario(name, lambda ctx: fn(ctx, *a, **k)))

    for mode in ("async", "sync"):
        add(f"{mode}-methods", histories, d, ["m", "d"], [mode], ["cancel"])
        add(f"{mode}-properties", histories, d, ["p", "cp"], [mode], ["cancel"])
        add(f"{mode}-modified", histories, d, ["s", "c"], [mode], ["cancel"])
        add(f"{mode}-generator", histories, d, ["g", "m"], [mode], ["cancel"])
        add(f"{mode}-all", histories, d - 1, MEMBERS, [mode], ["cancel"])
    add("plain", histories, d, ["p", "cp", "g"], ["plain"], ["cancel"])
    add("async-cache-cut", histories, d, ["c"], ["async"], ["cancel"], ("d",))
    add("async-ttl", histories, d, ["t"], ["async"], ["cancel"])
    add("async-abandon", histories, d - 1, MEMBERS, ["async"], ["abandon", "cancel"], ("d", "c", "t", "cp"))
    add("callables", callables, d, ["cancel"])
    return S
