"""C20: the memory cache modifier — one run per key while its result is cached, nothing shared between keys or instances, nothing
kept longer than its time to live, failures not cached, and one caller's cancellation no business of the others."""
import asyncio
from decimal import Decimal

from mc.explore import Scenario
from mc.loop import Run
from checks.c15 import Inline

ASSUMPTIONS = ["up to 3 keys, 2 instances, 4 concurrent callers, virtual time; sync functions run in an in-line executor"]


class Boom(Exception):
    pass


class Model:
    """LRU cache with time to live, one run per key in flight"""

    def __init__(self, maxsize, ttl, typed):
        self.maxsize, self.ttl, self.typed = maxsize, ttl, typed
        self.entries = {}  # key -> [value, expires or None]  (in LRU order)

    def key(self, owner, args, kwargs):
        k = (owner, args, tuple(kwargs.items()))
        if self.typed:
            k += (tuple(type(a) for a in args), tuple(type(v) for v in kwargs.values()))
        return k

    def get(self, k, now):
        e = self.entries.get(k)
        if e is None:
            return None
        if e[1] is not None and now >= e[1]:
            del self.entries[k]
            return None
        self.entries[k] = self.entries.pop(k)
        return e

    def put(self, k, v, now):
        self.entries.pop(k, None)
        self.entries[k] = [v, None if self.ttl is None else now + self.ttl]
        while self.maxsize is not None and len(self.entries) > self.maxsize:
            del self.entries[next(iter(self.entries))]


def configs():
    return {
        "type": (dict(cache_type="memory"), None, None, False),
        "max2": (dict(ram_cache_maxsize=2), 2, None, False),
        "max1": (dict(cache_type="memory", ram_cache_maxsize=1), 1, None, False),
        "ttl": (dict(ram_cache_ttl=60), None, 60, False),
        "ttl0.25": (dict(ram_cache_ttl=0.25), None, 0.25, False),
        "ttl1.5": (dict(cache_type="memory", ram_cache_ttl=1.5), None, 1.5, False),
        "typed": (dict(cache_type="memory", cache_typed=True), None, None, True),
        "all": (dict(ram_cache_maxsize=2, ram_cache_ttl=60, cache_typed=True), 2, 60, True),
    }


def target(form, kw, work, awork):
    """-> {owner: callable(*args, flags)}; work(owner, args, kwargs) computes, awork is its coroutine form"""
    from a_sync import a_sync, ASyncBase

    if form == "async":
        @a_sync("async", **kw)
        async def f(*a, **k):
            return await awork(None, a, k)
        return {None: f}, f
    if form == "bare":
        @a_sync(**kw)
        async def f(*a, **k):
            return await awork(None, a, k)
        return {None: f}, f
    if form == "syncdefault":
        @a_sync("sync", **kw)
        async def f(*a, **k):
            return await awork(None, a, k)
        return {None: f}, f
    if form == "sync":
        @a_sync("async", executor=Inline(), **kw)
        def f(*a, **k):
            return work(None, a, k)
        return {None: f}, f

    if form.startswith("apply"):  # the decorators themselves
        from a_sync.a_sync.modifiers.cache import apply_async_cache
        from a_sync.a_sync.modifiers.cache.memory import apply_async_memory_cache

        async def co(*a, **k):
            return await awork(None, a, k)
        mem = {{"ram_cache_maxsize": "maxsize", "ram_cache_ttl": "ttl", "cache_typed": "typed"}[x]: v for x, v in kw.items() if x != "cache_type"}
        c = {"apply-deco": lambda: apply_async_cache(**kw)(co), "apply-fn": lambda: apply_async_cache(co, **kw),
             "apply-int": lambda: apply_async_cache(kw.pop("ram_cache_maxsize"), **kw)(co),
             "apply-mem-deco": lambda: apply_async_memory_cache(**mem)(co), "apply-mem-fn": lambda: apply_async_memory_cache(co, **mem),
             "apply-mem-int": lambda: apply_async_memory_cache(mem.pop("maxsize"), **mem)(co)}[form]()
        return {None: lambda *a, asynchronous=True, **k: c(*a, **k)}, c

    class Base(ASyncBase):
        def __init__(self, n):
            super().__init__()
            self.n = n

        @property
        def __a_sync_flag_name__(self):
            return "sync"

        @property
        def __a_sync_flag_value__(self):
            return False

    if form == "method":
        class C(Base):
            @a_sync(**kw)
            async def f(self, *a, **k):
                return await awork(self.n, a, k)
    elif form == "class":
        C = type(Base)("C", (Base,), dict(kw, f=_meth(awork)))
    elif form == "syncmethod":
        class C(Base):
            @a_sync("async", executor=Inline(), **kw)
            def f(self, *a, **k):
                return work(self.n, a, k)
    if form in ("super-method", "super-class", "names-method", "names-class"):
        # two members of one instance: a method and the one it overrides, or two with names of their own
        deco, own = (a_sync(**kw), {}) if form.endswith("-method") else (lambda f: f, kw)

        def meth(tag):
            async def f(self, *a, **k):
                return await awork(tag, a, k)
            return deco(f)
        if form.startswith("names"):
            C = type(Base)("C", (Base,), dict(own, f=meth(0), g=meth(1)))
            o = C(0)
            return {0: lambda *a, **k: o.f(*a, **k), 1: lambda *a, **k: o.g(*a, **k)}, o
        C = type(Base)("C", (Base,), dict(own, f=meth(1)))
        D = type(Base)("D", (C,), dict(own, f=meth(0)))
        o = D(0)
        return {0: lambda *a, **k: o.f(*a, **k), 1: lambda *a, **k: super(D, o).f(*a, **k)}, o
    keep = [C(0), C(1)]
    return {i: (lambda *a, _o=o, **k: _o.f(*a, **k)) for i, o in enumerate(keep)}, keep


def _meth(awork):
    async def f(self, *a, **k):
        return await awork(self.n, a, k)
    return f


KEYS = {"1": ((1,), {}), "2": ((2,), {}), "3": ((3,), {}), "1.0": ((1.0,), {}), "kw1": ((), {"x": 1}), "D1": ((Decimal(1),), {})}


def sequences(ctx, form, conf, depth, keys, instances=1):
    kw, maxsize, ttl, typed = configs()[conf]
    with Run(ctx) as r:
        m = Model(maxsize, ttl, typed)
        runs = []
        bad = [False]

        def work(owner, a, k):
            runs.append((owner, a, k))
            if bad[0]:
                raise Boom(len(runs))
            return ("result", owner, a, tuple(k.items()), len(runs))

        async def awork(owner, a, k):
            await asyncio.sleep(0)
            return work(owner, a, k)

        fns, keep = r.setup(lambda: target(form, kw, work, awork))
        owners = list(fns)[:instances]
        ops = [f"{o}:{k}" if len(owners) > 1 else k for o in owners for k in keys] + ["fail"]
        if ttl is not None:
            ops += [f"+{ttl / 2}", f"+{ttl / 2 + min(ttl / 4, 1)}"]
        for i in range(depth):
            op = ctx.pick(ops + ["end"], f"{i}:")
            if op == "end":
                break
            if op[0] == "+":
                r.run(asyncio.sleep(float(op[1:])))
                continue
            fail = op == "fail"
            if fail:
                owner, key = owners[0], keys[0]
            elif len(owners) > 1:
                o, key = op.split(":")
                owner = int(o)
            else:
                owner, key = owners[0], op
            a, k = KEYS[key]
            mk = m.key(owner, a, k)
            hit = m.get(mk, r.loop.time())
            n0 = len(runs)
            bad[0] = fail
            flags = {} if i % 2 else {"sync": True} if form != "sync" and form != "syncmethod" and form[:5] != "apply" else {}

            def call():
                if flags:  # a synchronous call shares the cache
                    return ("ok", fns[owner](*a, **k, **flags))
                x = fns[owner](*a, **k, asynchronous=True) if i % 3 == 1 or form == "syncdefault" else fns[owner](*a, **k)
                return r.try_run(_aw(x))
            try:
                res = call()
            except Boom as e:
                res = ("exc", e)
            ran = runs[n0:]
            ctx.log(op, res, len(ran))
            if hit is not None:
                ctx.check(not ran, lambda: f"{op}: the result was cached, yet the function ran again", "rerun")
                ctx.check(res == ("ok", hit[0]), lambda: f"{op}: got {res}, cached is {hit[0]}", "value")
                continue
            ctx.check(len(ran) == 1, lambda: f"{op}: nothing valid was cached, but the function ran {len(ran)} times and gave {res}", "runs")
            same = len(ran) == 1 and ran[0][0] == owner and ran[0][1] == a and ran[0][2] == k and [type(v) for v in ran[0][1]] == [type(v) for v in a]
            ctx.check(same, lambda: f"{op}: ran with {ran}", "args")
            if fail:
                ctx.check(res[0] == "exc" and isinstance(res[1], Boom), lambda: f"{op}: {res}", "exc")
                # a failed call is never cached; whether it still takes up room is not promised
                if maxsize is not None and mk not in m.entries:
                    return
            else:
                ctx.check(res[0] == "ok" and res[1][:2] == ("result", owner) and res[1][4] == len(runs), lambda: f"{op}: {res}", "value")
                m.put(mk, res[1], r.loop.time())
        del keep


async def _aw(x):
    return await x


def concurrent(ctx, form, conf, callers, cancels=()):
    """callers: list of (owner, key); every run of the function waits at a gate and ends with a result or an exception"""
    kw, maxsize, ttl, typed = configs()[conf]
    with Run(ctx) as r:
        live, done, starts = {}, {}, []

        async def awork(owner, a, k):
            key = (owner, a)
            ctx.check(key not in live, lambda: f"{key} was run twice at once", "twice")
            ctx.check(done.get(key, ("exc",))[0] != "ok", lambda: f"{key} was run again although cached", "rerun")
            fut = r.loop.create_future()
            live[key] = fut
            starts.append(key)
            ctx.log("run", key)
            try:
                out = await fut
            except asyncio.CancelledError:
                ctx.fail(f"the run for {key} was cancelled", "cancelled-run")
                raise
            finally:
                live.pop(key, None)
            done[key] = (out, len(starts))
            if out == "exc":
                raise Boom(key)
            return ("result", key, len(starts))

        fns, keep = r.setup(lambda: target(form, kw, None, awork))
        got = {}

        def client(owner, key):
            a, k = KEYS[key]

            async def fn(c):
                c.expect = (Boom,)
                try:
                    x = await fns[owner](*a, sync=False, **k)
                except Boom as e:
                    got[c.name] = ("exc", e.args[0])
                    ctx.check(e.args[0] == (owner, a), lambda: f"{c.name} got the exception of {e.args[0]}", "mixed")
                    raise
                got[c.name] = ("ok", x)
                ctx.check(x[1] == (owner, a), lambda: f"{c.name} called {(owner, a)} and got {x}", "mixed")
                ctx.log(c.name, x)
            return fn

        def finish(key, out):
            ctx.log("finish", key, out)
            live[key].set_result(out)

        left = {"exc": 1}
        for o, k in dict.fromkeys(callers):
            key = (o, KEYS[k][0])
            ready = lambda key=key: key in live and not live[key].done() and bool(live[key]._callbacks)
            r.event(f"ok{key}", lambda key=key: finish(key, "ok"), ready, repeat=True)

            def bad(key=key):
                left["exc"] -= 1
                finish(key, "exc")
            r.event(f"exc{key}", bad, lambda key=key, ready=ready: left["exc"] > 0 and ready(), repeat=True)
        for i, (o, k) in enumerate(callers):
            c = r.client("ABCD"[i], client(o, k))
            if i in cancels:
                r.cancel_event(c)
        r.loop.fire_timers = not form.endswith("class")  # the idle timer of a bound method, which matters where the bound method has its own cache
        r.go()
        ctx.check(all(c.exc == "cancelled" or c.name in got for c in r.clients), lambda: f"someone got nothing: {got}", "nothing")
        while live:
            live.popitem()[1].set_result("ok")
        r.settle()
        del keep


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, fn, *a, bound=0, **k):
        S.append(Scenario(name, lambda ctx: fn(ctx, *a, **k), bound))

    d = 5 if q else 6
    for form in ("async", "bare", "syncdefault", "sync"):
        add(f"seq-{form}-max2", sequences, form, "max2", d, ["1", "2", "3"])
    for form in ("method", "class", "syncmethod"):
        add(f"seq-{form}-max2", sequences, form, "max2", d, ["1", "2", "3"])
        add(f"seq-{form}-type-2inst", sequences, form, "type", d - 1, ["1", "2"], 2)
    for form in ("apply-deco", "apply-fn", "apply-mem-deco", "apply-mem-fn"):
        for conf, keys in (("max2", ["1", "2", "3"]), ("ttl", ["1", "2"]), ("all", ["1", "1.0"])):
            add(f"seq-{form}-{conf}", sequences, form, conf, d - 1, keys)
    for form in ("apply-int", "apply-mem-int"):
        for conf, keys in (("max2", ["1", "2", "3"]), ("all", ["1", "1.0"])):
            add(f"seq-{form}-{conf}", sequences, form, conf, d - 1, keys)
    for form in ("super-method", "super-class", "names-method", "names-class"):
        add(f"seq-{form}", sequences, form, "type", d - 1, ["1", "2"], 2)
        add(f"seq-{form}-ttl", sequences, form, "ttl", d - 1, ["1"], 2)
    for conf, keys in (("type", ["1", "2", "kw1"]), ("max1", ["1", "2"]), ("ttl", ["1", "2"]), ("ttl0.25", ["1"]), ("ttl1.5", ["1"]), ("typed", ["1", "1.0", "D1"]),
                       ("all", ["1", "1.0"])):
        add(f"seq-async-{conf}", sequences, "async", conf, d, keys)
        add(f"seq-method-{conf}", sequences, "method", conf, d - 1, keys)
    b = 1 if q else 2
    for form in ("async", "method", "class"):
        o = None if form == "async" else 0
        add(f"conc-{form}-same", concurrent, form, "type", [(o, "1"), (o, "1"), (o, "1")], (0, 1), bound=b)
        add(f"conc-{form}-mixed", concurrent, form, "type", [(o, "1"), (o, "2"), (o, "1")], (0,), bound=b)
    add("conc-method-2inst", concurrent, "method", "type", [(0, "1"), (1, "1"), (0, "1")], (1,), bound=b)
    add("conc-class-2inst", concurrent, "class", "type", [(0, "1"), (1, "1"), (0, "1")], (1,), bound=b)
    for form in ("super-method", "super-class", "names-class"):
        add(f"conc-{form}", concurrent, form, "type", [(0, "1"), (1, "1"), (0, "1")], (1,), bound=b)
    add("conc-async-4", concurrent, "async", "type", [(None, "1"), (None, "1"), (None, "2"), (None, "1")], (0, 2), bound=b - 1)
    return S
