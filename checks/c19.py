"""C19: cached properties — one execution of the getter shared by all concurrent readers, its value kept (and set once) until it is
deleted; a failed or cancelled execution is not kept; a cancelled reader disturbs nobody."""
import asyncio
import functools
import sys

from mc.explore import Scenario
from mc.loop import Run
from checks.c15 import Inline

ASSUMPTIONS = ["up to 3 concurrent readers with up to 2 reads each, on up to 2 instances, in one event loop; the getter ends at any "
               "time with a value, an exception or a cancellation; the value is deleted or set only while no getter runs"]


class Boom(Exception):
    pass


class Getter:
    """the controlled getter"""

    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.n = {}
        self.running = {}
        self.out = {}
        self.sets = {}

    def outcomes(self, key, outs):
        for o in outs:
            self.r.event(f"{key}-{o}", lambda o=o: self.running[key].set_result(o),
                         lambda: key in self.running and not self.running[key].done(), repeat=True)

    async def __call__(self, key):
        ctx = self.ctx
        ctx.check(key not in self.running, lambda: f"two getters run at once for {key}", "single-flight")
        prev = self.out.get(key)
        ctx.check(prev is None or prev[0] != "ok", lambda: f"the getter of {key} runs again although there is a value", "again")
        self.n[key] = n = self.n.get(key, 0) + 1
        ctx.log("get", key, n)
        self.running[key] = self.r.loop.create_future()
        try:
            how = await self.running[key]
            if how == "ok":
                self.out[key] = ("ok", (key, n))
                return (key, n)
            if how == "none":
                self.out[key] = ("ok", None)
                return None
            if how == "exc":
                self.out[key] = ("exc", Boom(key, n))
                raise self.out[key][1]
            self.out[key] = ("cancel", None)
            raise asyncio.CancelledError
        except asyncio.CancelledError:
            ctx.check(self.out.get(key, ("",))[0] == "cancel" or not self.r.loop.offer, "a getter was cancelled although only readers were", "cancel")
            raise
        finally:
            del self.running[key]


def make_class(kind, g, fset):
    AP = sys.modules["a_sync.a_sync.property"]
    from a_sync import ASyncGenericBase

    AP = sys.modules["a_sync.a_sync.property"]
    cp = AP.a_sync_cached_property
    if kind == "plain":
        class C:
            def __init__(self, key):
                self.key = key

            @cp
            async def p(self):
                return await g(self.key)
    elif kind == "plain-async":
        class C:
            def __init__(self, key):
                self.key = key

            @cp(default="async")
            async def p(self):
                return await g(self.key)
    elif kind == "slots":
        class C:
            __slots__ = ("key", "__async_property__", "__weakref__", "__dict__")

            def __init__(self, key):
                self.key = key

            @cp
            async def p(self):
                return await g(self.key)
    elif kind == "eq":
        class C:
            def __init__(self, key):
                self.key = key

            def __eq__(self, other):
                return True

            def __hash__(self):
                return 1

            @cp
            async def p(self):
                return await g(self.key)
    elif kind in ("generic", "meta-async"):
        class C(ASyncGenericBase):
            def __init__(self, key, sync=False):
                self.key, self.sync = key, sync
                super().__init__()

            @cp
            async def p(self):
                return await g(self.key)
    elif kind == "super":
        class A(ASyncGenericBase):
            def __init__(self, key, sync=False):
                self.key, self.sync = key, sync
                super().__init__()

            @cp
            async def p(self):
                return await g(self.key)

        class C(A):
            @cp
            async def p(self):
                return await super().p
    elif kind == "semaphore":
        class C:
            def __init__(self, key):
                self.key = key

            @cp(semaphore=1)
            async def p(self):
                return await g(self.key)
    if fset:
        def setter(self, value):
            g.ctx.log("set", self.key, value)
            g.sets.setdefault(self.key, []).append(value)

        def deleter(self):
            g.ctx.log("del", self.key)

        C.p._fset = setter
        C.p._fdel = deleter
    return C


async def read(obj, how):
    if how == "attr":
        return await obj.p
    if how == "hidden":
        return await obj.__p__()
    if how == "hidden-await":
        return await obj.__p__
    if how == "get":
        return await type(obj).p.get(obj)
    if how == "map":
        return (await type(obj).p.map([obj]))[obj]


def readers(ctx, kind, plan, outs=("ok", "exc", "cancel"), cancels=(), fset=False, drop=None, setv=False):
    """plan: per reader a list of (instance, way)"""
    with Run(ctx) as r:
        g = Getter(ctx, r)
        C = r.setup(lambda: make_class(kind, g, fset))
        keys = sorted({k for p in plan for k, _ in p})
        objs = {k: r.setup(lambda k=k: C(k)) for k in keys}
        for k in keys:
            g.outcomes(k, outs)
        waiting = {}
        known = {k: 0 for k in keys}  # somebody got the value: it is in the cache
        gen = {k: 0 for k in keys}

        def make(i):
            async def fn(c):
                for j, (k, way) in enumerate(plan[i]):
                    if j:
                        await r.gate(c, f"read{j}")
                    cached = g.out.get(k)
                    n0, g0 = g.n.get(k, 0), gen[k]
                    waiting[c.name] = k
                    ctx.log(c.name, "read", k)
                    try:
                        v = await read(objs[k], way)
                        ctx.log(c.name, "got", v)
                        if cached and cached[0] == "ok":
                            ctx.check(v == cached[1], lambda: f"{v} is read, the value is {cached[1]}", "value")
                            ctx.check(g.n.get(k, 0) == n0 or gen[k] != g0, "the getter ran again", "again")
                        else:
                            o = g.out.get(k)
                            if gen[k] == g0:
                                ctx.check(o is not None and o[0] == "ok" and v == o[1], lambda: f"{v} is read, the value is {o}", "value")
                        if gen[k] == g0:
                            known[k] = 1
                    except asyncio.CancelledError:
                        waiting.pop(c.name)
                        if c.cancel_requested:
                            raise
                        ctx.check("cancel" in outs and g.n[k] > n0 - 1, "a reader was cancelled for no reason", "cancel")
                        ctx.log(c.name, "cancelled")
                    except Boom as e:
                        ctx.check(e.args[0] == k and e.args[1] >= n0, lambda: f"{e!r} is raised, {n0} executions were done at the read", "exception")
                        ctx.log(c.name, "exc", e.args[:2])
                    finally:
                        waiting.pop(c.name, None)
            return fn

        for i in range(len(plan)):
            c = r.client(f"R{i}", make(i))
            if i in cancels:
                r.cancel_event(c)
        # someone deletes or sets the value
        if drop is not None:
            def forget():
                ctx.log("forget", drop)
                del objs[drop].p
                known[drop] = 0
                if kind != "super":  # the overridden property keeps its value
                    gen[drop] += 1
                    g.out.pop(drop)
            r.event("del", forget, lambda: known[drop] and drop not in g.running)
        if setv:
            def sett():
                ctx.log("assign")
                objs[setv].p = "assigned"
                g.out[setv] = ("ok", "assigned")
                gen[setv] += 1
                known[setv] = 1
            r.event("assign", sett, lambda: setv not in g.running and (known[setv] or not g.n.get(setv)) and setv not in waiting.values())

        def quiescent():
            for name, k in waiting.items():
                ctx.check(k in g.running or kind == "semaphore" and g.running, lambda: f"{name} waits but no getter runs", "hang")
        r.loop.on_quiescent = quiescent
        r.go()
        r.settle()
        quiescent()
        # the value is still there
        for k in keys:
            n = g.n.setdefault(k, 0)
            o = g.out.get(k)
            if o and o[0] == "ok":
                res = r.try_run(read(objs[k], "attr"))
                ctx.check(res == ("ok", o[1]), lambda: f"a later read: {res}, the value is {o[1]}", "value")
                ctx.check(g.n[k] == n, "a later read ran the getter again", "again")
                if fset and drop is None:
                    ctx.check(g.sets.get(k) == [o[1]], lambda: f"the setter was called with {g.sets.get(k)} for the value {o[1]}", "setter")
            elif o:
                t = r.setup(lambda: r.loop.create_task(read(objs[k], "attr")))
                r.settle()
                ctx.check(g.n[k] == n + 1 and k in g.running, f"a read after a failed execution does not run the getter again ({t})", "retry")
                g.running[k].set_result("ok")
                r.settle()
                ctx.check(t.done() and t.result() == (k, n + 1), lambda: f"a read after a failed execution: {t}", "retry")


SYNC_OPS = ["read", "hidden", "await", "del", "set", "other"]


def sync(ctx, kind, depth):
    """every sequence of uses of a cached and a plain property in sync (and async) mode"""
    AP = sys.modules["a_sync.a_sync.property"]
    from a_sync import ASyncGenericBase

    with Run(ctx) as r:
        calls = []
        fails = [False]

        def compute(self, name):
            calls.append((self.key, name))
            ctx.log("get", self.key, name, fails[0])
            if fails[0]:
                raise Boom(len(calls))
            return (self.key, len(calls))

        if kind == "async-def":
            class C(ASyncGenericBase):
                def __init__(self, key, sync):
                    self.key, self.sync = key, sync
                    super().__init__()

                @AP.a_sync_cached_property
                async def p(self):
                    return compute(self, "p")

                @AP.a_sync_property
                async def u(self):
                    return compute(self, "u")
        else:
            class C(ASyncGenericBase):
                def __init__(self, key, sync):
                    self.key, self.sync = key, sync
                    super().__init__()

                @AP.a_sync_cached_property(executor=Inline())
                def p(self):
                    return compute(self, "p")

                @AP.a_sync_property(executor=Inline())
                def u(self):
                    return compute(self, "u")

        objs = [C(0, True), C(1, False)]
        model = {}
        for _ in range(depth):
            i = ctx.choose(["syncobj", "asyncobj"], None, "on=")
            o = objs[i]
            ops = ["p", "__p__", "p-fail", "u", "__u__", "u-fail", "set"] + (["del"] if i in model else [])
            op = ops[ctx.choose(ops, None, "do=")]
            ctx.step()
            n = len(calls)
            fails[0] = op.endswith("-fail")
            name = "p" if "p" in op and op != "u-fail" else "u"
            if op == "set":
                o.p = model[i] = ("set", n)
                continue
            if op == "del":
                del o.p
                del model[i]
                continue
            try:
                try:
                    if i == 0:
                        v = getattr(o, name) if not op.startswith("__") else getattr(o, f"__{name}__")(sync=True)
                    else:
                        async def get():
                            return await (getattr(o, name) if not op.startswith("__") else getattr(o, f"__{name}__")())
                        v = r.run(get())
                    exc = None
                except Boom as e:
                    v, exc = None, e
            finally:
                fails[0] = False
            ctx.log(op, v, exc and exc.args[:1])
            if name == "p" and i in model:
                ctx.check(exc is None and v == model[i] and len(calls) == n, lambda: f"{op}: {v} {exc!r}, {len(calls) - n} calls, the cached value is {model[i]}", "again")
            else:
                ctx.check(calls[n:] == [(i, name)], lambda: f"{op}: the getters {calls[n:]} were called", "again")
                if op.endswith("-fail"):
                    ctx.check(exc is not None and exc.args[0] == n + 1, lambda: f"{op}: {v} {exc!r}", "exception")
                else:
                    ctx.check(exc is None and v == (i, n + 1), lambda: f"{op}: {v} {exc!r}", "value")
                    if name == "p":
                        model[i] = v


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, fn, **k):
        S.append(Scenario(name, functools.partial(fn, **k), bound))

    B = 2 if q else 4
    a = ("a", "attr")
    for kind in ("plain", "plain-async", "slots", "eq", "generic", "super", "semaphore"):
        full = kind in ("plain", "generic", "super")
        add(f"{kind}-2", B if full else B - 1, readers, kind=kind, plan=[[a, a], [a]])
        add(f"{kind}-cancel", B - 1, readers, kind=kind, plan=[[a], [a, a]], cancels=[0, 1], outs=("ok", "exc"))
        add(f"{kind}-ways", B - 2, readers, kind=kind, plan=[[a], [("a", "get")], [("a", "map")]], outs=("ok", "exc"))
        if kind in ("generic", "super"):
            add(f"{kind}-ways2", B - 2, readers, kind=kind, plan=[[("a", "hidden-await")], [a], [("a", "hidden")]], outs=("ok", "exc"), cancels=[1])
        add(f"{kind}-inst", B - 2, readers, kind=kind, plan=[[a, ("b", "attr")], [("b", "attr"), a]], outs=("ok", "exc"))
        add(f"{kind}-del", B - 1, readers, kind=kind, plan=[[a, a], [a]], outs=("ok",), drop="a")
        add(f"{kind}-set", B - 2, readers, kind=kind, plan=[[a, a], [a]], outs=("ok", "none"), setv="a")
        add(f"{kind}-none", B - 1, readers, kind=kind, plan=[[a, a], [a]], outs=("none", "exc"))
        if full:
            add(f"{kind}-fset", B - 1, readers, kind=kind, plan=[[a, a], [a]], outs=("ok", "exc"), fset=True)
            add(f"{kind}-fset-cancel", B - 1, readers, kind=kind, plan=[[a], [a]], outs=("ok", "exc"), fset=True, cancels=[0, 1])
            add(f"{kind}-fset-del", B - 1, readers, kind=kind, plan=[[a], [a], [a]], outs=("ok",), fset=True, drop="a")
            add(f"{kind}-3", B - 1, readers, kind=kind, plan=[[a], [a], [a]], outs=("ok", "exc"), cancels=[1])
            if not q:
                add(f"{kind}-3x2", B - 2, readers, kind=kind, plan=[[a, a], [a, a], [a]], cancels=[0])
    for kind in ("async-def", "sync-def"):
        add(f"seq-{kind}", 0, sync, kind=kind, depth=3 if q else 4)
    return S
