"""C27: map, any, all, min, max, sum of @a_sync functions, methods and properties — each key (instance) gets the function's own
result, the aggregate is that of the results whatever the order of completion, in the mode asked for."""
import asyncio
import builtins
import concurrent.futures
import functools

from mc.explore import Scenario
from mc.loop import Run
from checks._mapping import Boom
from checks.c01 import World, attempt
from checks.c15 import Inline

ASSUMPTIONS = ["up to 3 keys or instances from up to 2 iterables, limits 1-2, small integers; sync functions run by an executor that "
               "is in line, or (orders-*) that completes in any order; flags are given to the aggregates of classes' members only"]

KINDS = ["af", "sf", "ak", "sk", "am", "sm", "ap", "sp", "acp", "scp"]
AGG = ["map", "any", "all", "min", "max", "sum"]


def prop(kind):
    return kind[-1] == "p"


def on_class(kind):
    return prop(kind) or kind in ("am", "sm")


class Gated(concurrent.futures.Executor):
    """runs what it is given when told to"""

    def __init__(self):
        self.q = {}

    def submit(self, fn, *a, **k):
        f = concurrent.futures.Future()
        self.q[f] = (fn, a, k)
        return f

    def run(self, f):
        fn, a, k = self.q.pop(f)
        if not f.set_running_or_notify_cancel():
            return
        try:
            f.set_result(fn(*a, **k))
        except BaseException as e:  # noqa
            f.set_exception(e)


def build(kind, default, isync, awork, swork, ex, n, own=None):
    """-> (the mapped thing of the parent, that of the child, n items of the parent, n items of the child, key of an item)"""
    import a_sync
    from a_sync import ASyncGenericBase

    kw = {"default": default} if default else {}
    if kind[0] == "s":
        kw["executor"] = ex
    if kind in ("af", "sf"):
        if kind == "af":
            @a_sync.a_sync(**kw)
            async def f(k, off=0):
                return await awork("f", k, off)
        else:
            @a_sync.a_sync(**kw)
            def f(k, off=0):
                return swork("f", k, off)
        return f, f, list(range(n)), list(range(n)), lambda k: k

    def member(tag):
        deco = {"m": a_sync.a_sync, "k": a_sync.a_sync, "p": a_sync.aka.property, "c": a_sync.aka.cached_property}[kind[1]](**kw)
        if kind[1] == "k":
            if kind[0] == "a":
                async def f(self, k, off=0):
                    return await awork(tag, k, off)
            else:
                def f(self, k, off=0):
                    return swork(tag, k, off)
        elif kind[1] == "m":
            if kind[0] == "a":
                async def f(self, off=0):
                    return await awork(tag, self.k, off)
            else:
                def f(self, off=0):
                    return swork(tag, self.k, off)
        elif kind[0] == "a":
            async def f(self):
                return await awork(tag, self.k, 0)
        else:
            def f(self):
                return swork(tag, self.k, 0)
        f.__name__ = "f"
        return deco(f)

    class K(ASyncGenericBase):
        f = member("K")

        def __init__(self, k, sync):
            self.k, self.sync = k, sync
            ASyncGenericBase.__init__(self)

    class Child(K):
        f = member("Child")

    ks, cs = [K(i, isync) for i in range(n)], [Child(i, isync) for i in range(n)]
    if kind[1] == "k":
        if own is not None:
            own.extend(ks + cs)
        return ks[0].f, cs[0].f, list(range(n)), list(range(n)), lambda k: k
    return K.f, Child.f, ks, cs, lambda x: x.k


def layout(style, items):
    async def agen(xs):
        for x in xs:
            await asyncio.sleep(0)
            yield x

    async def aw(xs):
        await asyncio.sleep(0)
        return xs
    if style == "list":
        return [list(items)]
    if style == "gen":
        return [(x for x in items)]
    if style == "agen":
        return [agen(items)]
    if style == "aw":
        return [aw(list(items))]
    if style == "two":
        return [tuple(items[:1]), list(items[1:])]
    return [agen(items[:1]), list(items[1:])]


def values(ctx, kind, styles, ns, deep=False, cached=False):
    """every configuration, completing in order; used twice"""
    from a_sync import exceptions as X

    with World() as w:
        default = ctx.pick([None, "sync", "async"], "default=")
        isync = ctx.pick([True, False], "sync=") if kind[1:] != "f" else None
        agg = ctx.pick(AGG, "what=")
        flags = dict(ctx.pick([{}, {"sync": True}, {"sync": False}, {"asynchronous": False}, {"asynchronous": True}], "flags=")) if on_class(kind) and agg != "map" else {}
        via = ctx.pick(["parent", "child", "super"], "class=") if kind[1:] != "f" else "parent"
        rich = deep or not flags and via == "parent"  # otherwise the modes are of interest
        n = ctx.pick(ns, "n=") if rich else ns[-1]
        vals = [ctx.pick([0, 1, 2] if deep else [0, 1] if n == 3 else [0, 2], "v=") for _ in range(n)] if rich else ctx.pick([[2, 1, 3], [0, -1, 0]], "v=")[:n]
        style = ctx.pick(styles, "keys=") if rich else styles[0]
        conc = ctx.pick([None, 1, 2][:n + 1], "concurrency=") if rich else None
        both = on_class(kind) and agg != "map" and style != "agen" and (deep or not conc and style == styles[0])
        where = ctx.pick(["loop", "plain"], "in=") if both else "loop"
        off = 0 if prop(kind) else ctx.pick([0, 3], "off=") if deep else 0 if agg in ("any", "all") else 3
        fail = ctx.pick([None] + list(range(n)) if rich else [None, n - 1], "fails=")
        calls, bad = [], fail

        def swork(tag, k, o):
            calls.append((tag, k, o))
            if k == bad:
                raise Boom(k)
            return vals[k] + o + (1 if tag == "Child" and k else 0)

        async def awork(tag, k, o):
            await asyncio.sleep(0)
            return swork(tag, k, o)
        own = []
        pf, cf, ps, cs, key = build(kind, default, isync, awork, swork, Inline(), n, own)
        if via == "super" and not on_class(kind):
            return
        on, items = (pf, ps) if via == "parent" else (cf, cs) if via == "child" else (pf, cs)
        tag = "f" if kind[1:] == "f" else "Child" if via == "child" else "K"
        kw = {"off": off} if off else {}
        if conc:
            kw["concurrency"] = conc
        vs = [v + off + (1 if tag == "Child" and k else 0) for k, v in enumerate(vals)]
        want = ("async" if agg == "map" or not on_class(kind) else ("sync" if flags["sync"] else "async") if "sync" in flags else
                ("async" if flags["asynchronous"] else "sync") if "asynchronous" in flags else default or "async")
        for again in range(2):
            calls.clear()
            use = items[:-1] if again and n > 1 else items
            vs = vs[:len(use)]
            fail = fail if fail is not None and fail < len(use) else None
            its = layout(style, use)

            def thunk():
                if agg == "map":
                    m = on.map(*its, **kw)

                    async def finish():
                        return {key(k): v for k, v in (await m).items()}
                    return finish()
                return getattr(on, agg)(*its, **kw, **flags)
            mode, (how, v) = attempt(w, where, thunk)
            for i in its:
                hasattr(i, "close") and i.close()
            ctx.log(agg, mode, how, v if how == "value" else type(v).__name__)
            desc = f"{kind}.{agg}() of {vs}, {fail} fails, {flags or default}, use {again + 1}"
            if want == "sync" and where == "loop":
                ctx.check(mode == "sync" and how == "exc" and isinstance(v, X.SyncModeInAsyncContextError) and not calls,
                          lambda: f"{desc} in a running loop: {mode} {how} {v!r}, calls {calls}", "refused")
                continue
            ctx.check(mode == want, lambda: f"{desc}: {mode}, not {want} ({how} {v!r})", "mode")
            seen = [k for t, k, o in calls]
            ctx.check(len(set(seen)) == len(seen) and all(t == tag and o == off for t, k, o in calls), lambda: f"{desc}: calls {calls}", "calls")
            ok = [x for k, x in enumerate(vs) if k != fail]
            early = agg == "any" and how == "value" and v is True and any(ok) or agg == "all" and how == "value" and v is False and not all(ok)
            if fail is not None and not early:
                ctx.check(how == "exc" and type(v) is Boom and v.args[0] == fail, lambda: f"{desc}: {how} {v!r}", "exception")
            elif not early:
                exp = dict(enumerate(vs)) if agg == "map" else getattr(builtins, agg)(vs)
                ctx.check(how == "value" and v == exp and type(v) is type(exp), lambda: f"{desc}: {how} {v!r}", "value")
                if kind[1] != "c" and not cached or not again:
                    ctx.check(sorted(seen) == list(range(len(use))) or agg in ("any", "all") and v is (agg == "any"), lambda: f"{desc}: calls {calls}", "calls")
            if kind[1] == "c" and fail is None and again and agg not in ("any", "all"):
                ctx.check(not calls, lambda: f"{desc}: a cached property is computed again: {calls}", "calls")


def orders(ctx, kind, agg, style="list", conc=None, fail=(), n=3, pair=None, default=None, isync=False, cancel=False, vals=(0, 1), same=False):
    """every order of completion; two users of the same member at once"""
    with Run(ctx) as r:
        v = [ctx.pick(list(vals), "f=")] * n if same else [ctx.pick(list(vals), f"f({k})=") for k in range(n)]
        calls, running, gates, finished = [], [], {}, {"A": [], "B": []}
        ex = Gated()

        def result(k):
            if k in fail:
                raise Boom(k)
            return v[k]

        def swork(tag, k, o):
            calls.append(k)
            return result(k)

        async def awork(tag, k, o):
            calls.append(k)
            running.append(k)
            ctx.log("call", k)
            try:
                f = r.loop.create_future()
                gates.setdefault(k, []).append(f)
                await f
                return result(k)
            finally:
                running.remove(k)
                gates[k].remove(f)
        for k in range(n):
            if kind[0] == "a":
                r.event(f"finish{k}", lambda k=k: [f for f in gates[k] if not f.done()][0].set_result(None),
                        lambda k=k: any(not f.done() for f in gates.get(k, ())), repeat=True)
            else:
                r.event(f"run{k}", lambda k=k: ex.run(list(ex.q)[k]), lambda k=k: len(ex.q) > k, repeat=True)
        own = []
        on, _, items, _, key = r.setup(lambda: build(kind, default, isync, awork, swork, ex, n, own))
        st, started = {}, set()

        def user(name, agg, mine):
            async def use(c):
                started.add(name)
                its = layout(style, [items[k] for k in mine])
                kw = {"concurrency": conc} if conc else {}
                try:
                    if agg == "map":
                        m = on.map(*its, **kw)
                        res, exc = {key(k): x for k, x in (await m).items()}, None
                    else:
                        res, exc = await getattr(on, agg)(*its, **kw, **({"sync": False} if on_class(kind) else {})), None
                except Boom as e:
                    res, exc = None, e
                ctx.log(name, agg, res, type(exc).__name__)
                good = [v[k] for k in mine if k not in fail]
                bad = [k for k in mine if k in fail]
                early = agg == "any" and res is True and any(good) or agg == "all" and res is False and not all(good)
                if exc is not None:
                    ctx.check(exc.args[0] in bad, lambda: f"{name}: {agg} of {v}: {exc!r}", "exception")
                elif not early:
                    ctx.check(not bad, lambda: f"{name}: {agg} is {res} although a call failed", "swallowed")
                    exp = dict(zip(mine, good)) if agg == "map" else getattr(builtins, agg)(good)
                    ctx.check(res == exp and type(res) is type(exp), lambda: f"{name}: {agg} of {good}: {res!r}", "value")
                st[name] = True
            return use
        users = {"A": (agg, list(range(n)))} if pair is None else {"A": (agg, list(range(n - 1))), "B": (pair, list(range(1, n)))}
        cl = {name: r.client(name, user(name, *u), auto=pair is None) for name, u in users.items()}
        if cancel:
            r.cancel_event(cl["A"])

        def step():
            if conc:
                ctx.check(len(running) + len(ex.q) <= conc * len(users), lambda: f"{running} run at once, the limit is {conc}", "limit")
        r.loop.on_step = step
        r.loop.on_quiescent = lambda: ctx.check(all(c.done for n, c in cl.items() if n in started) or any(gates.values()) or bool(ex.q), "it waits for nothing", "hang")
        r.go()
        r.settle()
        for name in cl:
            ctx.check(name in st or cancel and name == "A", f"user {name} did not end", "end")
        if cancel and pair is None:
            return
        for k in set(calls):
            most = 1 if kind[1] == "c" and not fail and pair is None else len(users)
            ctx.check(calls.count(k) <= most, lambda: f"calls {calls}", "calls")
            if kind[1] == "c" and not fail and not (cancel or {"any", "all"} & {u[0] for u in users.values()}):
                ctx.check(calls.count(k) == 1, lambda: f"a cached property is computed {calls.count(k)} times", "calls")


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, fn, env=None, **k):
        S.append(Scenario(name, functools.partial(fn, **k), bound, env=env))

    for kind in KINDS:
        styles = ["list", "gen", "agen", "aw"] if prop(kind) else ["list", "gen", "agen", "aw", "two", "mix"]
        if q:
            add(f"values-{kind}", 0, values, kind=kind, styles=["list", "aw"] if prop(kind) else ["list", "mix"], ns=[1, 2])
        else:
            add(f"values-{kind}", 0, values, kind=kind, styles=styles, ns=[1, 2, 3])
            add(f"values-deep-{kind}", 0, values, kind=kind, styles=styles, ns=[1, 2], deep=True)
    # the program's default modifiers are those of the functions, not of the aggregates
    for name, env in (("cache", {"A_SYNC_CACHE_TYPE": "memory"}), ("max", {"A_SYNC_RAM_CACHE_MAXSIZE": "8", "A_SYNC_SEMAPHORE": "1"}), ("rate", {"A_SYNC_RUNS_PER_MINUTE": "60000"})):
        for kind in ("am", "ap") + ("acp", "sm", "af") * (name == "cache") if q else KINDS:
            add(f"env-{name}-{kind}", 0, values, env=env, kind=kind, styles=["list"], ns=[2], cached=name != "rate")
    B = 0 if q else 2
    for agg in AGG:
        vals = (0, 1) if agg in ("any", "all") else ((1,) if agg == "map" else (0, 1)) if q else (0, 1, 2)
        for kind in KINDS:
            if q and kind[0] == "s" and agg in ("all", "max", "min"):
                continue
            add(f"orders-{kind}-{agg}", B, orders, kind=kind, agg=agg, vals=vals)
            add(f"orders-{kind}-{agg}-1", max(B - 1, 0), orders, kind=kind, agg=agg, conc=1, vals=vals)
            add(f"orders-{kind}-{agg}-fail", max(B - 1, 0), orders, kind=kind, agg=agg, fail=[1], vals=vals)
            if not q or kind[0] == "a":
                add(f"orders-{kind}-{agg}-agen", max(B - 1, 0), orders, kind=kind, agg=agg, style="agen", n=2, vals=vals)
                add(f"orders-{kind}-{agg}-cancel", max(B - 1, 0), orders, kind=kind, agg=agg, cancel=True, n=2, vals=(1,))
            if not q:
                add(f"orders-{kind}-{agg}-2-fail", B, orders, kind=kind, agg=agg, conc=2, fail=[0], vals=vals)
    for kind in ("af", "am", "acp") if q else ("af", "ak", "am", "ap", "acp", "sm", "scp"):
        for a, b in (("any", "sum"), ("all", "map"), ("max", "any"), ("sum", "min"))[:3 if q else 4]:
            add(f"pair-{kind}-{a}-{b}", max(B - 1, 0), orders, kind=kind, agg=a, pair=b, vals=(0, 1), same=q)
            add(f"pair-{kind}-{a}-{b}-1", max(B - 1, 0), orders, kind=kind, agg=a, pair=b, conc=1, vals=(0, 1), same=q)
            if not q or kind == "acp":
                add(f"pair-{kind}-{a}-{b}-fail", max(B - 1, 0), orders, kind=kind, agg=a, pair=b, fail=[1], vals=(1,))
                add(f"pair-{kind}-{a}-{b}-cancel", max(B - 1, 0), orders, kind=kind, agg=a, pair=b, cancel=True, vals=(1,))
    return S
