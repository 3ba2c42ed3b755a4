"""C15: TaskMapping — the function is called once for each key, and every way to iterate yields each key exactly once with its
own result, as soon as it is there; failures of the function and of the source reach the consumer; nothing hangs."""
import asyncio
import functools

from mc.explore import Scenario
from mc.loop import Run
from checks._mapping import Boom, Src, System, TypeBoom, idle, wrapped

ASSUMPTIONS = ["up to 3 keys (thorough: 4) from up to 2 sources; one or two consumers; the function's calls and the sources' "
               "items complete in any order; keys are distinct where the mapping is popped"]


def build(s, specs, **kw):
    from a_sync import TaskMapping

    its = [s.source(f"s{i}", *sp) for i, sp in enumerate(specs)]
    return TaskMapping(wrapped(s.fn, s.kind) if s.kind else s.fn, *its, **kw), its


def keyset(specs):
    out = []
    for sp in specs:
        for k in sp[0]:
            if k not in out:
                out.append(k)
    return out


HOWS = {
    # how: (what it yields, ordered like the keys?, yields as completed?)
    "aiter": ("items", False, True),
    "aiter-pop": ("items", False, True),
    "map": ("items", False, False),
    "map-keep": ("items", False, False),
    "map-keys": ("keys", False, False),
    "keys": ("keys", True, False),
    "values": ("values", True, False),
    "items": ("items", True, False),
    "items-pop": ("items", True, False),
    "values-pop": ("values", True, False),
    "bykeys": ("items", "keys", False),
    "byvalues-rev": ("items", "values", False),
}


def view(m, how):
    if how == "aiter":
        return m.__aiter__()
    if how == "aiter-pop":
        return m.__aiter__(pop=True)
    if how == "map":
        return m.map()
    if how == "map-keep":
        return m.map(pop=False)
    if how == "map-keys":
        return m.map(yields="keys")
    if how == "bykeys":
        return m.items().aiterbykeys()
    if how == "byvalues-rev":
        return m.items().aiterbyvalues(reverse=True)
    name, _, pop = how.partition("-")
    return getattr(m, name)(pop=bool(pop))


def iterate(ctx, specs, how, concurrency=None, fail=(), pause=False, poke=None, late=False, srcfail=False, twice=None, func=None):
    with Run(ctx) as r:
        keys = keyset(specs)
        s = System(ctx, r, keys, fail, value=lambda k: -k * 10)
        cut = "cut" in (func, srcfail)  # what a call, or the source, waits for is cancelled
        s.kind, s.boom = None if func == "cut" else func, asyncio.CancelledError if func == "cut" else TypeBoom if func else Boom
        kind, ordered, asap = HOWS[how]
        box = {}

        def make():
            box["m"], box["its"] = build(s, specs, concurrency=concurrency)
        if not late:
            r.setup(make)
        got = []
        st = dict(waiting=False, how=None)

        async def consumer(c, how=how, got=got, st=st, kind=kind, ordered=ordered):
            if late and "m" not in box:
                make()
            m = box["m"]
            seen = []
            st["waiting"] = True
            try:
                async for x in view(m, how):
                    st["waiting"] = False
                    ctx.log(c.name, "got", x)
                    k = x[0] if kind == "items" else x if kind == "keys" else x // -10
                    ctx.check(k in keys, lambda: f"{x} was yielded, which is not of the mapping", "alien")
                    if kind == "items":
                        ctx.check(x == (k, -k * 10), lambda: f"{x} yielded for key {k}", "value")
                    if kind != "keys" or how.startswith("map"):
                        ctx.check(k in s.finished, lambda: f"{x} yielded before its call was finished", "value")
                    ctx.check(k not in seen, lambda: f"{k} was yielded twice", "twice")
                    seen.append(k)
                    got.append(k)
                    if pause:
                        await r.gate(c, "next")
                    st["waiting"] = True
                end = None
            except (Boom, Src) as e:
                end = e
            except asyncio.CancelledError:
                if not cut:
                    raise
                end = Boom(*fail) if func == "cut" else Src()
            st["waiting"] = False
            st["how"] = end
            ctx.log(c.name, "end", type(end).__name__)
            if end is None:
                ctx.check(sorted(seen) == sorted(keys), lambda: f"{seen} yielded of {keys}", "lost")
                ctx.check(not srcfail, "the failure of the source was swallowed", "swallowed")
                ctx.check(kind == "keys" and not how.startswith("map") or not fail, "the failure of the function was swallowed", "swallowed")
                if ordered is True:
                    for sp in specs:
                        own = list(dict.fromkeys(sp[0]))
                        if poke is None and sum(len(set(sp[0])) for sp in specs) == len(keys):
                            order = [k for k in seen if k in own]
                            ctx.check(order == own, lambda: f"the order of the view is {seen}, the source has {own}", "order")
                elif ordered == "keys":
                    ctx.check(seen == sorted(keys), lambda: f"{seen} is not sorted by key", "order")
                elif ordered == "values":
                    ctx.check(seen == sorted(keys), lambda: f"{seen} is not sorted by value, reversed", "order")
            elif isinstance(end, Boom):
                ctx.check(end.args[0] in fail, "raised out of nowhere", "exception")
            else:
                ctx.check(srcfail, "raised out of nowhere", "exception")

        c = r.client("A", consumer, auto=not late)
        if twice:
            got2, st2 = [], dict(waiting=False, how=None)
            k2, o2, _ = HOWS[twice]
            c2 = r.client("B", functools.partial(consumer, how=twice, got=got2, st=st2, kind=k2, ordered=o2))
        if poke is not None:
            # someone else asks for a key while the mapping is loading
            async def poker(c):
                v = await box["m"][poke]
                ctx.log("poke", v)
                ctx.check(v == -poke * 10, lambda: f"mapping[{poke}] is {v}", "value")
            r.client("P", poker)

        def quiescent():
            for k in set(s.calls):
                if not (how.endswith("pop") and poke is not None):
                    ctx.check(s.calls.count(k) == 1, lambda: f"the function was called {s.calls.count(k)} times for {k}", "calls")
            if asap and st["waiting"] and not pause and not twice:
                ready = [k for k in s.finished if k not in got and k in keys and (poke is None or k in s.produced)]
                ctx.check(not ready, lambda: f"the results of {ready} are there but not yielded", "late")
            if c.done:
                return
            if st["waiting"] and not s.feeding():
                ctx.check(bool(s.gates), lambda: f"the consumer waits for nothing: all keys are loaded, all calls are done ({got} yielded)", "hang")

        r.loop.on_quiescent = quiescent
        r.go()
        r.settle()
        quiescent()


def mapped(ctx, specs, pop, concurrency=None, fail=(), how="both"):
    """mapping.map(iterable) on an empty mapping"""
    from a_sync import TaskMapping

    with Run(ctx) as r:
        keys = keyset(specs)
        s = System(ctx, r, keys, fail)
        m = r.setup(lambda: TaskMapping(s.fn, concurrency=concurrency))
        seen = []
        st = dict(waiting=True)

        async def consumer(c):
            end = None
            try:
                async for x in m.map(*[s.source(f"s{i}", *sp) for i, sp in enumerate(specs)], pop=pop, yields=how):
                    st["waiting"] = False
                    k = x[0] if how == "both" else x
                    ctx.log("got", x)
                    ctx.check(how == "keys" or x == (k, k * 10), lambda: f"{x} yielded", "value")
                    ctx.check(k not in seen, lambda: f"{k} was yielded twice", "twice")
                    seen.append(k)
                    st["waiting"] = True
            except Boom as e:
                end = e
            st["waiting"] = False
            if end is None:
                ctx.check(sorted(seen) == sorted(keys), lambda: f"{seen} of {keys}", "lost")
                ctx.check(not fail, "the failure of the function was swallowed", "swallowed")
            for k in keys:
                ctx.check(s.calls.count(k) <= 1, lambda: f"{k} called {s.calls.count(k)} times", "calls")

        c = r.client("A", consumer, auto=True)

        def quiescent():
            if not c.done and not s.feeding():
                ctx.check(bool(s.gates), lambda: f"the consumer waits for nothing ({seen} yielded)", "hang")
        r.loop.on_quiescent = quiescent
        r.go()
        r.settle()


def whole(ctx, specs, form, concurrency=None, fail=(), sync=False, srcfail=False, func=None):
    """await mapping, gather() and its options, the views awaited"""
    with Run(ctx) as r:
        keys = keyset(specs)
        s = System(ctx, r, keys, fail, gated=not sync)
        cut = "cut" in (func, srcfail)  # what a call, or the source, waits for is cancelled
        s.kind, s.boom = None if func == "cut" else func, asyncio.CancelledError if func == "cut" else TypeBoom if func else Boom

        def check(res, exc):
            ctx.log(form, res, type(exc).__name__)
            if exc is not None:
                ctx.check(type(exc) in (s.boom, Src) and (fail or srcfail), lambda: f"{exc!r} out of nowhere", "exception")
                return
            ctx.check(not srcfail, "the failure of the source was swallowed", "swallowed")
            ctx.check(not fail or form == "gather-exc", "the failure of the function was swallowed", "swallowed")
            want = {k: k * 10 for k in keys}
            if form == "gather-exc":
                ctx.check(sorted(res) == sorted(keys), lambda: f"{res}", "value")
                for k, v in res.items():
                    ctx.check(type(v) is s.boom and v.args == (k,) if k in fail else v == k * 10, lambda: f"{k}: {v}", "value")
            elif form == "gather-exclude":
                ctx.check(res == {k: v for k, v in want.items() if v != 10}, lambda: f"{res}", "value")
            elif form in ("await", "gather"):
                ctx.check(res == want, lambda: f"{res}, not {want}", "value")
            elif form == "values":
                ctx.check(sorted(res) == sorted(want.values()), lambda: f"{res}", "value")
            elif form == "keys":
                ctx.check(sorted(res) == sorted(want), lambda: f"{res}", "value")
            elif form == "items":
                ctx.check(dict(res) == want and len(res) == len(want), lambda: f"{res}", "value")
            for k in keys if form != "keys" else ():
                ctx.check(s.calls.count(k) == 1, lambda: f"{k} called {s.calls.count(k)} times", "calls")

        def thing(m, sync):
            kw = {"sync": sync}
            return {"await": lambda: m, "gather": lambda: m.gather(**kw), "gather-exc": lambda: m.gather(return_exceptions=True, **kw),
                    "gather-exclude": lambda: m.gather(exclude_if=lambda v: v == 10, **kw), "values": lambda: m.values(),
                    "keys": lambda: m.keys(), "items": lambda: m.items()}[form]()

        if sync:
            m, _ = build(s, specs, concurrency=concurrency)
            try:
                res, exc = thing(m, True), None
            except (Boom, Src) as e:
                res, exc = None, e
            check(res, exc)
            return
        m = r.setup(lambda: build(s, specs, concurrency=concurrency)[0])

        async def consumer(c):
            try:
                res, exc = await thing(m, False), None
            except (Boom, Src) as e:
                res, exc = None, e
            except asyncio.CancelledError as e:
                if not cut:
                    raise
                res, exc = None, e if func == "cut" else Src()
            check(res, exc)

        c = r.client("A", consumer, auto=True)

        def quiescent():
            if not c.done and not s.feeding():
                ctx.check(bool(s.gates), "the consumer waits for nothing", "hang")
        r.loop.on_quiescent = quiescent
        r.go()
        r.settle()


def manual(ctx, n, depth):
    """every sequence of operations of a mapping without iterables, against a dict"""
    from a_sync import TaskMapping
    from a_sync.exceptions import MappingIsEmptyError

    with Run(ctx) as r:
        s = System(ctx, r, range(n), gated=False)
        m = TaskMapping(s.fn)
        model = {}
        started = 0

        def opts():
            o = [f"get{k}" for k in range(n)] + ["gather", "aiter", "views", "settle"]
            o += [f"{v}{k}" for k in model for v in ("pop", "del", "popc")] + ["clear"]
            return o

        for _ in range(depth):
            o = opts()
            do = o[ctx.choose(o, None, "do=")]
            ctx.step()
            if do.startswith("get"):
                k = int(do[3:])
                t = r.setup(lambda: m[k])
                if k in model:
                    ctx.check(t is model[k], "a key got another task", "calls")
                else:
                    started += 1
                model[k] = t
            elif do.startswith("popc") or do.startswith("pop") or do.startswith("del"):
                verb, k = do[:-1], int(do[-1])
                was = model[k].done()
                if verb == "del":
                    del m[k]
                else:
                    t = m.pop(k, cancel=verb == "popc")
                    ctx.check(t is model[k], "pop returned another task", "value")
                t = model.pop(k)
                r.settle()
                ctx.check(t.cancelled() == (verb != "pop" and not was), lambda: f"{do}: cancelled={t.cancelled()} was done={was}", "cancel")
            elif do == "clear":
                m.clear()
                model.clear()
            elif do == "settle":
                r.settle()
            elif do == "gather":
                try:
                    res = r.run(m.gather(sync=False), "gather")
                    ctx.check(res == {k: k * 10 for k in model} and model, lambda: f"gather of {list(model)}: {res}", "value")
                except MappingIsEmptyError:
                    ctx.check(not model, "MappingIsEmptyError of a mapping that is not empty", "exception")
            elif do == "aiter":
                async def it():
                    return [x async for x in m]
                try:
                    res = r.run(it(), "async for")
                    ctx.check(sorted(res) == sorted((k, k * 10) for k in model) and model, lambda: f"{res} of {list(model)}", "value")
                except MappingIsEmptyError:
                    ctx.check(not model, "MappingIsEmptyError of a mapping that is not empty", "exception")
            elif do == "views":
                async def av(v):
                    return await v
                ctx.check(r.run(av(m.keys())) == list(model), "keys()", "value")
                ctx.check(r.run(av(m.values())) == [k * 10 for k in model], "values()", "value")
                ctx.check(r.run(av(m.items())) == [(k, k * 10) for k in model], "items()", "value")
            ctx.check(list(m) == list(model) and len(m) == len(model) and len(m.keys()) == len(model)
                      and list(m.keys()) == list(model) and list(m.values()) == list(model.values()), lambda: f"{list(m)}, not {list(model)}", "keys")
            ctx.log(do, list(m))
        r.settle()
        ctx.check(len(s.calls) <= started, lambda: f"{s.calls} with {started} started", "calls")


def kwargs(ctx, kind):
    """the key is the first argument that is not given by a keyword"""
    from a_sync import TaskMapping, a_sync, ASyncGenericBase

    with Run(ctx) as r:
        names = ["a", "b", "c"]
        given = [x for x in names if ctx.choose(["no", "yes"], None, f"{x}=")]
        if len(given) == 3:
            return
        conc = ctx.pick([None, 2], "concurrency=")
        how = ctx.pick(["await", "map", "values"] if kind != "descriptor" else ["await"], "how=")

        async def fn(a=1, b=2, c=3):
            return (a, b, c)

        def sfn(a=1, b=2, c=3):
            return (a, b, c)

        class C:
            async def m(self, a=1, b=2, c=3):
                return (a, b, c)

        class D(ASyncGenericBase):
            def __init__(self, sync=False):
                self.sync = sync
                super().__init__()

            async def m(self, a=1, b=2, c=3):
                return (a, b, c)

        obj = D()
        f = {"fn": fn, "asyncfn": a_sync(fn), "asyncdefsync": a_sync(default="sync")(fn), "syncfn": a_sync(default="async", executor=Inline())(sfn),
             "method": C().m, "bound": obj.m}[kind]
        first = next(x for x in names if x not in given)
        if first != "a" and kind not in ("fn", "method"):
            return  # the order of the arguments of these is not looked at
        kw = {x: x.upper() for x in given}
        keys = [10, 20]
        want = {k: tuple({**dict(a=1, b=2, c=3), **kw, first: k}[x] for x in names) for k in keys}

        async def main():
            m = TaskMapping(f, keys, concurrency=conc, **kw)
            if how == "await":
                return await m
            if how == "map":
                return {k: v async for k, v in m.map()}
            return dict(zip(keys, await m.values()))

        res = r.run(main())
        ctx.log(res)
        ctx.check(res == want, lambda: f"{kind} with {kw}: {res}, not {want}", "kwargs")


import concurrent.futures


class Inline(concurrent.futures.Executor):
    def submit(self, fn, *a, **k):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*a, **k))
        except BaseException as e:  # noqa
            f.set_exception(e)
        return f


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, fn, **k):
        S.append(Scenario(name, functools.partial(fn, **k), bound))

    B = 2 if q else 4
    L3 = [([1, 2, 3], "list")]
    A2 = [([1, 2], "agen")]
    A3 = [([1, 2, 3], "agen")]
    MIX = [([1], "list"), ([2, 3], "agen")]
    TWO = [([1, 2], "agen"), ([3], "agen")]
    for how in HOWS:
        add(f"list-{how}", B, iterate, specs=L3, how=how)
        add(f"agen-{how}", B - 1, iterate, specs=A2 if q else A3, how=how)
        add(f"agen-{how}-fail", 1 if q else B - 1, iterate, specs=A2, how=how, fail=[2])
        add(f"agen-{how}-cut", 1 if q else B - 1, iterate, specs=A2, how=how, fail=[2], func="cut")
        add(f"agen-{how}-srccut", 1 if q else B - 1, iterate, specs=[([1, 2], "agen", "cut")], how=how, srcfail="cut")
        add(f"agen-{how}-srcfail", 1 if q else B - 1, iterate, specs=[([1, 2], "agen", "exc")], how=how, srcfail=True)
        add(f"limit-{how}", B - 1, iterate, specs=L3 if q else [([1, 2, 3, 4], "list")], how=how, concurrency=2)
        add(f"limit-agen-{how}", B - 1, iterate, specs=A2, how=how, concurrency=1)
        if not q:
            add(f"mix-{how}", B - 1, iterate, specs=MIX, how=how)
            add(f"two-{how}", B - 1, iterate, specs=TWO, how=how)
        if how in ("aiter", "map-keep", "values", "items", "aiter-pop", "keys"):
            add(f"pause-{how}", B - 1 if how == "aiter-pop" else B - 2, iterate, specs=A2, how=how, pause=True)
            add(f"late-{how}", B - 2, iterate, specs=MIX, how=how, late=True)
        if how in ("aiter", "items", "keys"):
            add(f"dup-{how}", B - 1, iterate, specs=[([1, 2, 1], "agen")], how=how)
            add(f"dup2-{how}", B - 1, iterate, specs=[([1, 2], "list"), ([2, 1], "agen")], how=how)
            add(f"poke-{how}", B - 1, iterate, specs=A2, how=how, poke=2)
            add(f"poke1-{how}", B - 2, iterate, specs=A2, how=how, poke=1)
            add(f"twice-{how}", B - 1, iterate, specs=A2, how=how, twice="aiter")
            add(f"twice-items-{how}", B - 2, iterate, specs=A2, how=how, twice="items")
    for style in ("dict", "gen", "awaitable", "awaitable-agen", "agen-now"):
        add(f"src-{style}", B, iterate, specs=[([1, 2], style)], how="aiter")
        add(f"src2-{style}", B - 1, iterate, specs=[([1], style), ([2], "agen")], how="items")
    for style in ("falsy", "keysof"):
        for how in ("aiter", "items", "map"):
            add(f"src-{style}-{how}", B - 1, iterate, specs=[([1, 2], style)], how=how)
            add(f"src2-{style}-{how}", B - 1, iterate, specs=[([1], style), ([2], "list")], how=how)
        add(f"map-{style}", B - 1, mapped, specs=[([1, 2], style)], pop=True)
        add(f"whole-{style}", 1 if q else 3, whole, specs=[([1, 2], style)], form="await")
    for func in ("partial", "method", "object", "unhashable", "slots"):
        for conc in (None, 2):
            l = "-limit" if conc else ""
            add(f"func-{func}{l}", 1 if q else 3, iterate, specs=[([1, 2], "list")], how="aiter", func=func, concurrency=conc)
            add(f"func-{func}{l}-fail", 1 if q else 3, iterate, specs=[([1, 2], "list")], how="items", func=func, fail=[2], concurrency=conc)
            add(f"func-{func}{l}-gather", 1 if q else 3, whole, specs=[([1, 2], "agen")], form="gather-exc", func=func, fail=[1], concurrency=conc)
    for e in ("list", "agen", "awaitable"):
        add(f"empty-{e}", B - 1, iterate, specs=[([], e), ([1, 2], "list")], how="aiter")
        add(f"empty2-{e}", B - 1, iterate, specs=[([1], "agen"), ([], e)], how="aiter")
    for pop in (True, False):
        p = "" if pop else "-keep"
        add(f"map-list{p}", B, mapped, specs=L3, pop=pop)
        add(f"map-agen{p}", B - 1 if q else B, mapped, specs=A2 if q else A3, pop=pop)
        add(f"map-two{p}", B - 2, mapped, specs=[([1], "agen"), ([2], "agen")], pop=pop)
        add(f"map-mix{p}", B - 1, mapped, specs=[([], "list"), ([1], "list"), ([2], "agen")], pop=pop)
        add(f"map-fail{p}", B - 1, mapped, specs=A2, pop=pop, fail=[1])
        add(f"map-limit{p}", B - 1, mapped, specs=L3, pop=pop, concurrency=1)
        add(f"map-keys{p}", B - 1, mapped, specs=A2, pop=pop, how="keys")
    for form in ("await", "gather", "gather-exc", "gather-exclude", "values", "keys", "items"):
        add(f"whole-{form}", 1 if q else 3, whole, specs=L3, form=form)
        add(f"whole-{form}-agen", 1 if q else 3, whole, specs=A2, form=form)
        add(f"whole-{form}-limit", 1 if q else 3, whole, specs=L3, form=form, concurrency=2)
        add(f"whole-{form}-srccut", 1 if q else 3, whole, specs=[([1, 2], "agen", "cut")], form=form, srcfail="cut")
        if form not in ("gather-exc", "keys"):
            add(f"whole-{form}-cut", 1 if q else 3, whole, specs=A2, form=form, fail=[2], func="cut")
        add(f"whole-{form}-srcfail", 1 if q else 3, whole, specs=[([1, 2], "agen", "exc")], form=form, srcfail=True)
        if form != "keys":
            add(f"whole-{form}-fail", 1 if q else 3, whole, specs=A2, form=form, fail=[1])
    for form in ("gather", "gather-exc", "gather-exclude"):
        for st in ("list", "gen", "agen-now"):
            add(f"sync-{form}-{st}", 0, whole, specs=[([1, 2, 3], st)], form=form, sync=True)
            add(f"sync-{form}-{st}-limit", 0, whole, specs=[([1, 2, 3], st)], form=form, sync=True, concurrency=2)
    add("manual", 0, manual, n=2, depth=4 if q else 5)
    for kind in ("fn", "asyncfn", "asyncdefsync", "syncfn", "method", "bound"):
        add(f"kwargs-{kind}", 0, kwargs, kind=kind)
    return S
