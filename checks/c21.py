"""C21: semaphore, rate limit and cache modifiers — never more at once / per minute than allowed, never held back without a reason,
in every place a modifier can be given: decorator, class attribute, property, apply_* function, environment default."""
import asyncio
import concurrent.futures

from mc.explore import Scenario
from mc.loop import Run
from checks.c15 import Inline

ASSUMPTIONS = ["up to 4 concurrent callers, semaphores of 1 and 2, rates of 1 to 3 per minute, virtual time; sync functions run "
               "in an in-line executor; aiolimiter's leaky bucket (installed third-party package) is part of what is run"]


class Boom(Exception):
    pass


def base():
    from a_sync import ASyncBase

    class Base(ASyncBase):
        def __init__(self, n=0):
            super().__init__()
            self.n = n

        @property
        def __a_sync_flag_name__(self):
            return "sync"

        @property
        def __a_sync_flag_value__(self):
            return False
    return Base


class Manual(concurrent.futures.Executor):
    """An executor whose work is done when the environment says so."""

    def __init__(self, on_start, on_end):
        self.on_start, self.on_end = on_start, on_end

    def submit(self, fn, *a, **k):
        fut = concurrent.futures.Future()
        fut.work = lambda: fn(*a, **k)
        tag = object()
        self.on_start(tag, fut)
        fut.add_done_callback(lambda f: self.on_end(tag, fut))
        return fut


def place(form, kw, awork, work=None):
    """-> ([callable(tag)...] which are subject to the same limit, keep-alive)"""
    import a_sync as lib
    from a_sync import a_sync

    if form == "function":
        @a_sync("async", **kw)
        async def f(tag):
            return await awork(tag)
        return [f], f
    if form == "bare":
        @a_sync(**kw)
        async def f(tag):
            return await awork(tag)
        return [f], f
    if form == "syncdefault":
        @a_sync("sync", **kw)
        async def f(tag):
            return await awork(tag)
        return [lambda t: f(t, sync=False)], f
    if form in ("apply", "applykw", "apply2"):
        from a_sync.a_sync.modifiers.limiter import apply_rate_limit
        (k, v), = kw.items()
        ap = lib.apply_semaphore if k == "semaphore" else apply_rate_limit
        f = ap(v)(awork) if form == "apply" else ap(**kw)(awork) if form == "applykw" else ap(awork, v)
        return [f], f
    if form == "shared":  # one object for two functions
        f = a_sync("async", **kw)(lambda_co(awork))
        g = a_sync(**kw)(lambda_co(awork))
        return [f, g], (f, g)
    B = base()
    if form == "method":
        class C(B):
            @a_sync(**kw)
            async def f(self, tag):
                return await awork(tag)
        o = C()
        return [lambda t: o.f(t)], o
    if form == "class":
        async def f(self, tag):
            return await awork(tag)

        async def g(self, tag):
            return await awork(tag)
        C = type(B)("C", (B,), dict(kw, f=f, g=g))
        o, o2 = C(1), C(2)
        return [lambda t: o.f(t), lambda t: o.g(t), lambda t: o2.f(t)], (o, o2)
    if form in ("super", "superclass", "syncsuper"):
        # the method that an overriding one overrides is used in between: it has a limit of its own
        def meth(cls):
            if form == "syncsuper":
                return a_sync("async", **kw)(lambda self, tag: tag)

            async def f(self, tag):
                return await awork(tag) if cls else None
            return f if form == "superclass" else a_sync(**kw)(f)
        own = kw if form == "superclass" else {}
        C = type(B)("C", (B,), dict(own, f=meth(0)))
        D = type(B)("D", (C,), dict(own, f=meth(1)))
        o = D()

        async def over(t):
            super(D, o).f
            return await o.f(t)
        return [over], o
    if form == "syncfunction":
        @a_sync("async", **kw)
        def f(tag):
            return tag
        return [f], f
    if form == "syncmethod":
        class C(B):
            @a_sync("async", **kw)
            def f(self, tag):
                return tag
        o = C()
        return [lambda t: o.f(t)], o
    if form == "syncclass":
        class C(B):
            locals().update(kw)

            def f(self, tag):
                return tag

            def g(self, tag):
                return tag
        o = C()
        return [lambda t: o.f(t, sync=False), lambda t: o.g(t, sync=False)], o
    if form in ("property", "hidden", "prophidden", "syncprophidden"):
        class C(B):
            if form == "syncprophidden":
                @lib.aka.property("async", **kw)
                def p(self):
                    return None
            else:
                @lib.aka.property("async", **kw)
                async def p(self):
                    return await awork(None)
        o = C()

        async def direct(t):
            return await o.p

        async def hidden(t):
            return await getattr(o, "__p__")()
        return ([direct] if form == "property" else [hidden] if form == "hidden" else [direct, hidden]), o
    raise ValueError(form)


def lambda_co(awork):
    async def f(tag):
        return await awork(tag)
    return f


def spec(what, n):
    import a_sync as lib

    if what == "int":
        return n
    if what == "Semaphore":
        return lib.Semaphore(n)
    if what == "Threadsafe":
        return lib.ThreadsafeSemaphore(n)
    if what == "asyncio":
        return asyncio.Semaphore(n)
    raise ValueError(what)


def semaphore(ctx, form, what, n, k, cancels=(), excs=0, extra=None, env=False, timers=True):
    with Run(ctx) as r:
        r.loop.fire_timers = timers  # the idle timers of bound methods
        live, waiting = [], []

        async def awork(tag):
            live.append(tag)
            ctx.check(len(live) <= n, lambda: f"{len(live)} run at once with a semaphore of {n}", "too-many")
            fut = r.loop.create_future()
            futs.append(fut)
            try:
                if await fut == "exc":
                    raise Boom(tag)
            finally:
                live.remove(tag)
                futs.remove(fut)
            return tag
        futs = []
        kw = {} if env else {"semaphore": spec(what, n)}
        if form.startswith("sync") and form != "syncdefault":
            def on_start(tag, fut):
                live.append(tag)
                ctx.check(len(live) <= n, lambda: f"{len(live)} run at once with a semaphore of {n}", "too-many")
                futs.append(fut)

            def on_end(tag, fut):
                live.remove(tag)
                futs.remove(fut)
            kw["executor"] = Manual(on_start, on_end)

        def finish(fut, out):
            if isinstance(fut, asyncio.Future):
                fut.set_result(out)
            elif out == "exc":
                fut.set_exception(Boom(0))
            else:
                fut.set_result(fut.work())

        def ready(i):
            return bool(futs) and not futs[i].done() and (not isinstance(futs[i], asyncio.Future) or bool(futs[i]._callbacks))
        fns, keep = r.setup(lambda: place(form, dict(kw, **(extra or {})), awork))

        def client(i):
            async def fn(c):
                c.expect = (Boom,)
                waiting.append(c.name)
                try:
                    x = await fns[i % len(fns)](c.name)
                    ctx.check(x in (c.name, None), lambda: f"{c.name} got {x!r}", "value")
                finally:
                    waiting.remove(c.name)
            return fn
        left = {"exc": excs}
        r.event("done", lambda: finish(futs[0], "ok"), lambda: ready(0), repeat=True)

        def bad():
            left["exc"] -= 1
            finish(futs[-1], "exc")
        r.event("fail", bad, lambda: left["exc"] > 0 and ready(-1), repeat=True)
        for i in range(k):
            c = r.client("ABCD"[i], client(i))
            if i in cancels:
                r.cancel_event(c)

        def quiescent():
            ctx.check(len(live) == min(n, len(waiting)), lambda: f"{len(waiting)} calls are waiting, a semaphore of {n} lets {len(live)} run", "held-back")
        r.loop.on_quiescent = quiescent
        r.go()
        # no permit was lost
        r.loop.fire_timers = True
        r.loop.on_quiescent = None
        ts = [r.setup(lambda i=i: r.loop.create_task(_aw(fns[i % len(fns)], f"P{i}"))) for i in range(n + 1)]
        r.settle()
        ctx.check(len(live) == n, lambda: f"afterwards {len(live)} of {n} permits are there", "lost")
        for _ in range(n + 1):
            for f in list(futs):
                finish(f, "ok")
            r.settle()
        ctx.check(all(t.done() for t in ts), "a call never got its permit", "lost")
        del keep


async def _aw(fn, tag):
    return await fn(tag)


def rate(ctx, form, n, depth, obj=False, env=False, extra=None):
    """sequences of calls and pauses; virtual time"""
    from aiolimiter import AsyncLimiter

    with Run(ctx) as r:
        loop = r.loop
        starts = []

        async def awork(tag):
            starts.append((loop.time(), tag))
            return tag
        kw = {} if env else {"runs_per_minute": AsyncLimiter(n) if obj else n}
        if form.startswith("sync") and form != "syncdefault":
            class Ex(Inline):
                def submit(self, fn, *a, **k):
                    starts.append((loop.time(), len(starts)))
                    return super().submit(fn, *a, **k)
            kw["executor"] = Ex()
        fns, keep = r.setup(lambda: place(form, dict(kw, **(extra or {})), awork))
        pend = []
        level, last = 0.0, loop.time()
        for i in range(depth):
            op = ctx.pick(["call", "call-other", "+10", "+30", "+60", "end"] if len(fns) > 1 else ["call", "+10", "+30", "+60", "end"], f"{i}:")
            if op == "end":
                break
            if op[0] == "+":
                r.run(asyncio.sleep(int(op[1:])))
                continue
            now = loop.time()
            free = not [t for t in pend if not t.done()]
            lvl = 0.0  # level of the leaky bucket, from the starts so far
            prev = None
            for t, _ in starts:
                lvl = max(0.0, lvl - (t - prev) * n / 60) + 1 if prev is not None else 1.0
                prev = t
            if prev is not None:
                lvl = max(0.0, lvl - (now - prev) * n / 60)
            k0 = len(starts)
            pend.append(r.setup(lambda: loop.create_task(_aw(fns[1 + i % (len(fns) - 1)] if op == "call-other" else fns[0], i))))
            r.settle()
            ctx.log(op, now, len(starts) - k0)
            if free and lvl + 1 <= n + 1e-9:
                ctx.check(len(starts) == k0 + 1, lambda: f"a call was held back although only {lvl:.2f} of {n} per minute are used", "held-back")
        t0 = loop.time()
        for t in pend:
            r.run(_wait(t), "a rate limited call")
        ctx.check(loop.time() - t0 <= 60 * (len(pend) + 1), lambda: f"{len(pend)} calls took {loop.time() - t0} s", "slow")
        ctx.check(len(starts) == len(pend), lambda: f"{len(pend)} calls, {len(starts)} runs", "runs")
        ts = [t for t, _ in starts]
        for a in range(len(ts)):
            for b in range(a, len(ts)):
                ctx.check(b - a + 1 <= n + n * (ts[b] - ts[a]) / 60 + 1e-6, lambda: f"{b - a + 1} runs in {ts[b] - ts[a]} s with {n} per minute", "too-fast")
        del keep


async def _wait(t):
    return await t


def stacked(ctx, form, kind):
    """a cached result costs neither a permit nor rate; a run costs both"""
    kw = dict(cache_type="memory", semaphore=1) if kind == "semaphore" else dict(cache_type="memory", runs_per_minute=2)
    with Run(ctx) as r:
        runs, live, futs = [], [], {}

        async def awork(tag):
            runs.append(tag)
            ctx.check(runs.count(tag) == 1, lambda: f"{tag} ran again although cached", "rerun")
            live.append(tag)
            ctx.check(kind != "semaphore" or len(live) == 1, "two run at once with a semaphore of 1", "too-many")
            fut = futs[tag] = r.loop.create_future()
            try:
                await fut
            finally:
                live.remove(tag)
            return ("res", tag)
        fns, keep = r.setup(lambda: place(form, kw, awork))
        fn = fns[0]
        tasks = {}
        done = set()
        for i in range(6):
            ops = [f"call{t}" for t in "ab"] + [f"finish{t}" for t in live if not futs[t].done()] + ["end"]
            op = ctx.pick(ops, f"{i}:")
            if op == "end":
                break
            tag = op[-1]
            if op.startswith("finish"):
                futs[tag].set_result(None)
                r.settle()
                done.add(tag)
                continue
            t = r.setup(lambda: r.loop.create_task(_aw(fn, tag)))
            r.settle()
            tasks.setdefault(tag, []).append(t)
            if tag in done:
                ctx.check(t.done() and t.result() == ("res", tag), lambda: f"a cached call of {tag} had to wait", "cached-waits")
        for _ in range(4):
            for tag, f in list(futs.items()):
                f.done() or f.set_result(None)
            r.settle()
        for tag, ts in tasks.items():
            for t in ts:
                ctx.check(t.done() and t.result() == ("res", tag), lambda: f"call of {tag}: {t}", "value")
        del keep


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, fn, *a, bound=0, scenv=None, **k):
        S.append(Scenario(name, lambda ctx: fn(ctx, *a, **k), bound, env=scenv or {}))

    b = 1 if q else 2
    for form in ("function", "bare", "syncdefault", "method", "class", "property", "hidden", "prophidden", "super", "superclass"):
        add(f"sem-{form}-int1", semaphore, form, "int", 1, 3, cancels=(0, 1), excs=1, bound=b, timers=not q or form not in ("class", "hidden", "prophidden"))
    for form in ("function", "method", "class", "prophidden"):
        add(f"sem-{form}-int2", semaphore, form, "int", 2, 3, cancels=(1,), bound=b)
    for what in ("Semaphore", "Threadsafe", "asyncio"):
        for form in ("function", "shared", "method", "class", "prophidden", "apply", "applykw", "apply2"):
            add(f"sem-{form}-{what}1", semaphore, form, what, 1, 3, cancels=(1,), bound=b if form in ("shared", "prophidden") else b - 1)
    for form in ("syncfunction", "syncmethod", "syncclass", "syncprophidden", "syncsuper"):
        add(f"sem-{form}-int1", semaphore, form, "int", 1, 3, cancels=(1,), excs=1, bound=b - 1)
    for what in ("Semaphore", "asyncio"):
        for form in ("syncmethod", "syncclass", "syncprophidden"):
            add(f"sem-{form}-{what}1", semaphore, form, what, 1, 3, cancels=(1,), bound=b - 1)
    add("sem-apply-int", semaphore, "apply", "int", 2, 4, cancels=(1,), bound=b - 1)
    add("sem-shared-2", semaphore, "shared", "Semaphore", 2, 4, cancels=(0, 2), bound=b - 1)
    add("sem-rate", semaphore, "function", "int", 1, 3, cancels=(1,), bound=b - 1, extra={"runs_per_minute": 1000})
    d = 5 if q else 7
    for form in ("function", "bare", "syncdefault", "method", "class", "property", "hidden", "prophidden", "super", "superclass"):
        for n in (2,) if form.startswith("super") else (1, 2, 3):
            add(f"rate-{form}-{n}", rate, form, n, d)
    for form in ("function", "shared", "method", "class", "prophidden", "apply", "applykw", "apply2"):
        add(f"rate-{form}-object", rate, form, 2, d, obj=True)
    for form in ("syncfunction", "syncmethod", "syncclass", "syncprophidden", "syncsuper"):
        add(f"rate-{form}-2", rate, form, 2, d)
    add("rate-apply", rate, "apply", 2, d)
    add("rate-sem", rate, "function", 2, d, extra={"semaphore": 1})
    for form in ("function", "bare", "method", "class"):
        for kind in ("semaphore", "rate"):
            add(f"stack-{form}-{kind}", stacked, form, kind)
    e = {"A_SYNC_SEMAPHORE": "1"}
    for form in ("function", "bare", "method", "property", "prophidden"):
        add(f"env-sem-{form}", semaphore, form, None, 1, 3, cancels=(1,), bound=b - 1, env=True, scenv=e)
    add("env-sem-override", semaphore, "function", "int", 2, 3, bound=b - 1, scenv=e)
    add("env-sem-class-override", semaphore, "class", "int", 2, 3, bound=b - 1, scenv=e)
    e = {"A_SYNC_RUNS_PER_MINUTE": "2"}
    for form in ("function", "bare", "method", "property", "prophidden"):
        add(f"env-rate-{form}", rate, form, 2, d, env=True, scenv=e)
    add("env-rate-override", rate, "method", 3, d, scenv=e)
    return S
