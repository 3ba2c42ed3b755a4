"""C16: TaskMapping — the concurrency limit is never exceeded and always used, aggregates are those of the results and decided
as early as certain, and a mapping that was consumed (pop) leaves nothing behind, however the consumption ended."""
import asyncio
import builtins
import functools

from mc.explore import Scenario
from mc.loop import Run
from checks._mapping import Boom, Src, System

ASSUMPTIONS = ["up to 4 keys from up to 2 sources; limits 1-3; calls and items of the sources complete in any order; the values of "
               "the aggregates are small integers, booleans and None"]


def keyset(specs):
    return list(dict.fromkeys(k for sp in specs for k in sp[0]))


def limit(ctx, specs, how, n, fail=(), cancel=False):
    """at most n calls run at once; n run if there are n keys to do"""
    from a_sync import TaskMapping

    with Run(ctx) as r:
        keys = keyset(specs)
        s = System(ctx, r, keys, fail)
        its = [s.source(f"s{i}", *sp) for i, sp in enumerate(specs)]
        m = r.setup(lambda: TaskMapping(s.fn, *(() if how in ("get", "mapit") else its), concurrency=n))

        async def user(c):
            try:
                if how == "get":
                    for k in keys:
                        m[k]
                        await r.gate(c, "more")
                    await m
                elif how == "mapit":
                    async for _ in m.map(*its):
                        pass
                elif how == "map":
                    async for _ in m.map():
                        pass
                elif how == "aiter":
                    async for _ in m:
                        pass
                elif how == "aiter-pop":
                    async for _ in m.__aiter__(pop=True):
                        pass
                elif how == "gather":
                    await m.gather(sync=False)
                elif how == "values":
                    async for _ in m.values():
                        pass
            except Boom:
                pass

        c = r.client("A", user, auto=True)
        if cancel:
            r.cancel_event(c)

        def step():
            ctx.check(len(s.running) <= n, lambda: f"{len(s.running)} calls run at once, the limit is {n}", "limit")

        def quiescent():
            if c.done:
                return
            todo = [k for k in m if not m[k].done()]
            ctx.check(len(s.running) == min(n, len(todo)), lambda: f"{s.running} run, of {todo}, the limit is {n}", "idle")

        r.loop.on_step = step
        r.loop.on_quiescent = quiescent
        r.go()
        r.settle()
        ctx.log(s.calls)


VALUES = [0, 1, 2, None]


def aggregate(ctx, specs, what, concurrency=None, pop=None, values=(0, 1), fail=(), srcfail=False, sync=False):
    """all, any, max, min, sum: as the builtin over the results; early; nothing is left behind if popping"""
    from a_sync import TaskMapping
    from a_sync.exceptions import EmptySequenceError

    with Run(ctx) as r:
        keys = keyset(specs)
        val = {k: ctx.pick(list(values), f"f({k})=") for k in keys}
        s = System(ctx, r, keys, fail, value=val.__getitem__, gated=not sync)
        its = [s.source(f"s{i}", *sp) for i, sp in enumerate(specs)]
        pops = pop if pop is not None else what != "sum"
        kw = {} if pop is None else {"pop": pop}

        def want(ks):
            vs = [val[k] for k in ks]
            if what in ("max", "min") and not vs:
                return EmptySequenceError
            return getattr(builtins, what)(vs)

        def judge(res, exc):
            ctx.log(what, res, type(exc).__name__)
            bad = [k for k in keys if k in fail]
            if exc is None:
                certain = what == "any" and res is True and any(val[k] for k in s.finished if k not in fail) or \
                    what == "all" and res is False and not all(val[k] for k in s.finished if k not in fail)
                ctx.check(not bad and not srcfail or certain, lambda: f"{what}() is {res} although a call failed", "swallowed")
                if not certain:
                    w = want(keys)
                    ctx.check(w is not EmptySequenceError and res == w and type(res) is type(w), lambda: f"{what}() of {val}: {res!r}, not {w!r}", "value")
                else:
                    ctx.check(type(res) is bool, lambda: f"{res!r}", "value")
            elif isinstance(exc, EmptySequenceError):
                ctx.check(not keys and what in ("max", "min"), lambda: f"{exc!r} of {val}", "exception")
            else:
                ctx.check(isinstance(exc, Boom) and bad or isinstance(exc, Src) and srcfail, lambda: f"{exc!r}", "exception")

        if sync:
            m = TaskMapping(s.fn, *its, concurrency=concurrency)
            try:
                res, exc = getattr(m, what)(sync=True, **kw), None
            except Exception as e:
                res, exc = None, e
            judge(res, exc)
            return
        M = [r.setup(lambda: TaskMapping(s.fn, *its, concurrency=concurrency))]
        st = {}

        async def user(c):
            try:
                res, exc = await getattr(M[0], what)(sync=False, **kw), None
            except Exception as e:
                res, exc = None, e
            except asyncio.CancelledError:
                if srcfail != "cut":
                    raise
                res, exc = None, Src()
            st["calls"] = list(s.calls)
            judge(res, exc)
            st["failed"] = exc is not None
            if pops:
                ctx.check(not len(M[0]), "the mapping is not empty after it was consumed", "cleanup")

        c = r.client("A", user, auto=True)

        def quiescent():
            if c.done:
                if pops:
                    over(ctx, s, st, concurrency)
                    nothing_left(ctx, s)
                return
            ok = [val[k] for k in s.finished if k not in fail]
            if what == "any":
                ctx.check(not any(ok), "a result is true, but any() waits", "late")
            elif what == "all":
                ctx.check(all(ok), "a result is false, but all() waits", "late")
            if not s.feeding():
                ctx.check(bool(s.gates), "it waits for nothing", "hang")

        r.loop.on_quiescent = quiescent
        r.go()
        r.settle()
        if pops:
            over(ctx, s, st, concurrency)
            consumed(ctx, r, M[0])
            M.clear()
            nothing_left(ctx, s)
        elif not st["failed"] and not fail and not srcfail:
            r.loop.events = [e for e in r.loop.events]
            s.gated = False
            for g in list(s.gates.values()):
                g.done() or g.set_result(None)
            for g in list(s.src_gates.values()):
                g is None or g.done() or g.set_result(None)
            if all(sp[1] != "agen" for sp in specs):
                again = r.run(getattr(M[0], what)(sync=False, **kw), "the aggregate again")
                ctx.check(again == want(keys), lambda: f"{what}() again is {again}", "again")


def grow(ctx, depth):
    """keys are added between the aggregates of a mapping that is kept"""
    from a_sync import TaskMapping

    with Run(ctx) as r:
        vals = {}

        async def f(k):
            return vals[k]
        m = r.setup(lambda: TaskMapping(f))
        for i in range(depth):
            op = ctx.pick(["+0", "+1", "+2", "any", "all", "max", "min", "sum", "gather", "end"], f"{i}:")
            if op == "end":
                break
            if op[0] == "+":
                vals[len(vals)] = int(op[1:])

                async def start():
                    m[len(vals) - 1]
                r.run(start(), "a new key")
                continue
            if not vals:
                return

            async def use():
                if op == "gather":
                    return list((await m.gather(sync=False)).values())
                return await getattr(m, op)(pop=False, sync=False)
            res = r.run(use(), op)
            ctx.log(op, res)
            want = list(vals.values()) if op == "gather" else getattr(builtins, op)(vals.values())
            ctx.check(res == want and type(res) is type(want), lambda: f"{op} of {list(vals.values())}: {res!r}", "value")


def consumed(ctx, r, m):
    async def use(f):
        try:
            x = f()
            if hasattr(x, "__aiter__"):
                async for _ in x:
                    pass
            else:
                await x
        except RuntimeError as e:
            return "consumed" in str(e)
        return False

    for name, f in (("aiter", lambda: m.__aiter__(pop=True)), ("map", lambda: m.map()), ("any", lambda: m.any(sync=False)), ("keys", lambda: m.keys(pop=True))):
        ctx.check(r.run(use(f), name), lambda: f"{name} (pop) of a consumed mapping does not raise RuntimeError", "again")


def over(ctx, s, st, concurrency):
    """the mapping was consumed: its calls are cancelled; with a limit, those that run may finish, but no other starts"""
    if concurrency is None:
        ctx.check(not s.running, lambda: f"the calls of {s.running} go on after the mapping was consumed", "cleanup")
    if "calls" in st:
        ctx.check(s.calls == st["calls"], lambda: f"the calls of {s.calls[len(st['calls']):]} were started after the mapping was consumed", "cleanup")


def nothing_left(ctx, s):
    ctx.check(not s.feeding(), "the keys are still being loaded after the mapping was consumed", "cleanup")


def cleanup(ctx, specs, how, end, concurrency=None, fail=(), srcfail=False, after=1):
    """the consumption ends early: nothing goes on afterwards"""
    from a_sync import TaskMapping

    class Mine(Exception):
        pass

    with Run(ctx) as r:
        keys = keyset(specs)
        s = System(ctx, r, keys, fail)
        its = [s.source(f"s{i}", *sp) for i, sp in enumerate(specs)]
        M = [r.setup(lambda: TaskMapping(s.fn, *(() if how == "mapit" else its), concurrency=concurrency))]
        st = {}

        async def user(c):
            try:
                await use(c)
            finally:
                if not st.get("gc"):
                    st["calls"] = list(s.calls)

        async def use(c):
            seen = []
            m = M[0]
            st["started"] = True
            if end == "close":
                await r.gate(c, "close")
                await m.close()
                st["ended"] = True
                return
            g = m.__aiter__(pop=True) if how == "aiter" else m.map(*its).__aiter__() if how == "mapit" else m.map().__aiter__()
            try:
                async for x in g:
                    seen.append(x)
                    ctx.log("got", x)
                    if len(seen) == after:
                        if end == "break" or end == "drop":
                            break
                        if end == "raise":
                            raise Mine
            except Mine:
                pass
            except (Boom, Src) as e:
                ctx.check(fail or srcfail, lambda: f"{e!r}", "exception")
                ctx.log(type(e).__name__)
            except asyncio.CancelledError:
                if srcfail != "cut" or c.cancel_requested:
                    raise
                ctx.log("cut")
            finally:
                st["ended"] = True
                if end in ("break", "raise") and hasattr(g, "aclose"):
                    await g.aclose()
                elif len(seen) == after and end in ("break", "raise", "drop"):
                    st["gc"] = True  # it is closed by the loop, soon
                del g

        c = r.client("A", user, auto=True)
        if end == "cancel":
            r.cancel_event(c, lambda: "started" in st)

        def quiescent():
            if c.done:
                st.setdefault("calls", list(s.calls))
                over(ctx, s, st, concurrency)
                nothing_left(ctx, s)
            elif not st.get("ended") and not s.feeding() and end != "close":
                ctx.check(bool(s.gates), "it waits for nothing", "hang")

        r.loop.on_quiescent = quiescent
        r.go()
        r.settle()
        over(ctx, s, st, concurrency)
        nothing_left(ctx, s)
        ctx.check(not len(M[0]), "the mapping is not empty after it was consumed", "cleanup")
        ctx.log(s.calls, s.finished)
        consumed(ctx, r, M[0])
        M.clear()
        nothing_left(ctx, s)


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, fn, env=None, **k):
        S.append(Scenario(name, functools.partial(fn, **k), bound, env=env))

    B = 1 if q else 3
    L3 = [([1, 2, 3], "list")]
    L4 = [([1, 2, 3, 4], "list")]
    A2 = [([1, 2], "agen")]
    MIX = [([1, 2], "list"), ([3], "agen")]
    for name, env in (("", None), ("-cache", {"A_SYNC_CACHE_TYPE": "memory"}), ("-limits", {"A_SYNC_SEMAPHORE": "1", "A_SYNC_RUNS_PER_MINUTE": "60000"})):
        add(f"grow{name}", 0, grow, env=env, depth=4 if q else 5)
    for how in ("aiter", "aiter-pop", "map", "mapit", "gather", "values", "get"):
        for n in (1, 2):
            add(f"limit-{how}-{n}", B if q else B - 1 if how in ("get", "mapit") else B, limit, specs=L3 if q else L4, how=how, n=n)
            add(f"limit-{how}-{n}-mix", B - 1, limit, specs=MIX, how=how, n=n)
        if how not in ("get", "values", "gather"):
            add(f"limit-{how}-fail", B - 1, limit, specs=L3, how=how, n=2, fail=[1])
        add(f"limit-{how}-3", B - 1, limit, specs=L4, how=how, n=3)
    for what in ("all", "any", "max", "min", "sum"):
        for c in (None, 1, 2):
            t = f"-{c}" if c else ""
            add(f"{what}{t}", B - 1 if c or what == "sum" else B, aggregate, specs=L3, what=what, concurrency=c)
            add(f"{what}{t}-agen", B - 1, aggregate, specs=A2, what=what, concurrency=c)
            add(f"{what}{t}-keep", B - 1, aggregate, specs=L3, what=what, concurrency=c, pop=False)
            add(f"{what}{t}-pop", B - 1, aggregate, specs=L3, what=what, concurrency=c, pop=True)
            add(f"{what}{t}-fail", B - 1, aggregate, specs=L3, what=what, concurrency=c, fail=[2])
            add(f"{what}{t}-srccut", B - 1, aggregate, specs=[([1, 2], "agen", "cut")], what=what, concurrency=c, srcfail="cut")
            add(f"{what}{t}-srcfail", B - 1, aggregate, specs=[([1, 2], "agen", "exc")], what=what, concurrency=c, srcfail=True)
            if not q:
                add(f"{what}{t}-mix", B - 1, aggregate, specs=MIX, what=what, concurrency=c)
        add(f"{what}-empty", B, aggregate, specs=[([], "list")], what=what)
        add(f"{what}-empty-agen", B, aggregate, specs=[([], "agen")], what=what)
        add(f"{what}-sync", 0, aggregate, specs=[([1, 2, 3], "list")], what=what, sync=True, values=(-1, 0, 1))
        add(f"{what}-sync-gen", 0, aggregate, specs=[([1, 2], "gen"), ([3], "agen-now")], what=what, sync=True, values=(0, 1, 2), concurrency=2)
        if what != "sum":
            add(f"{what}-none", 0, aggregate, specs=[([1], "list")], what=what, sync=True, values=(None, 0, ""))
    for how in ("aiter", "map", "mapit"):
        for end in ("normal", "break", "drop", "raise", "cancel") + (("close",) if how == "aiter" else ()):
            for c in (None, 1, 2):
                t = f"-{c}" if c else ""
                add(f"end-{how}-{end}{t}", B if not c else B - 1, cleanup, specs=L3, how=how, end=end, concurrency=c)
                add(f"end-{how}-{end}{t}-agen", B - 1, cleanup, specs=A2, how=how, end=end, concurrency=c)
                if end in ("normal", "cancel", "break"):
                    add(f"end-{how}-{end}{t}-fail", B - 1, cleanup, specs=A2 if end == "cancel" else L3, how=how, end=end, concurrency=c, fail=[2])
                    add(f"end-{how}-{end}{t}-srccut", B - 1, cleanup, specs=[([1, 2], "agen", "cut")], how=how, end=end, concurrency=c, srcfail="cut")
                    add(f"end-{how}-{end}{t}-srcfail", B - 1, cleanup, specs=[([1, 2], "agen", "exc")], how=how, end=end, concurrency=c, srcfail=True)
    return S
