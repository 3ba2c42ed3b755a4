"""C12: gather / as_completed — every result exactly once, at its place or in order of completion, exceptions and
exclusions as asked, the timeout honoured; for every completion order and every combination of options."""
import asyncio
import functools

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["up to 4 awaitables per call, which finish in every order with a result or an exception; one event loop, virtual time"]


class Boom(Exception):
    pass


def world(ctx, r, kinds, fixed=None):
    """awaitables that finish, with an outcome the environment chooses, when the environment says so"""
    loop = r.loop
    n = len(kinds)
    futs = [None] * n
    order = []
    outcome = [None] * n
    started = []
    epoch = [0] * n
    now = [0]

    def finish(i, out):
        outcome[i] = out
        order.append(i)
        epoch[i] = now[0]
        ctx.log("finish", i, out)
        if out == "cut":  # the work ends in a cancellation of its own
            futs[i].cancel()
        elif out == "exc":
            futs[i].set_exception(Boom(i))
        else:
            futs[i].set_result(i if out == "ok" else -1)

    def aw(i):
        if kinds[i] == "future":
            futs[i] = r.setup(loop.create_future)
            return futs[i]

        async def work():
            ctx.check(i not in started, f"awaitable {i} was started twice", "twice")
            started.append(i)
            futs[i] = loop.create_future()
            return await futs[i]

        if kinds[i] == "coro":
            return work()
        if kinds[i] == "task":
            return r.setup(lambda: loop.create_task(work()))

        class Obj:
            def __await__(self):
                return work().__await__()

        return Obj()

    aws = [aw(i) for i in range(n)]
    for i in range(n):
        for out in (fixed or ("ok", "neg", "exc")):
            r.event(f"{out}{i}", functools.partial(finish, i, out),
                    lambda i=i: outcome[i] is None and futs[i] is not None and not futs[i].done())

    def first(cands):
        """those of cands which finished first: completions between two quiescent points count as simultaneous"""
        cands = list(cands)
        return [i for i in cands if epoch[i] == min(epoch[j] for j in cands)]

    return aws, order, outcome, first, lambda: now.__setitem__(0, now[0] + 1), futs


def value(i, out):
    return i if out == "ok" else -1


def same(got, i, out):
    """got is the result (or returned exception) of awaitable i"""
    if out == "exc":
        return isinstance(got, Boom) and got.args == (i,)
    if out == "cut":
        return isinstance(got, asyncio.CancelledError)
    return type(got) is int and got == value(i, out)


def gather_body(ctx, kinds, mapping, retexc, exclude, tqdm, fixed=None, cancel=False):
    from a_sync import gather

    with Run(ctx) as r:
        aws, order, outcome, first, tick, futs = world(ctx, r, kinds, fixed)
        n = len(kinds)
        kw = dict(tqdm=True, disable=True) if tqdm else {}
        if retexc:
            kw["return_exceptions"] = True
        excl = lambda v: (isinstance(v, int) and v < 0) or isinstance(v, Boom)
        if exclude:
            kw["exclude_if"] = excl
        keys = [f"k{(i * 2) % 5}" for i in range(n)]  # not in sorted order
        st = {}

        async def client(c):
            st["called"] = True
            try:
                if mapping:
                    res = await gather(dict(zip(keys, aws)), **kw)
                else:
                    res = await gather(*aws, **kw)
            except asyncio.CancelledError:
                ctx.log("cancelled")
                # whether return_exceptions covers the CancelledError of an awaitable is left open
                firsts = first(i for i in order if outcome[i] in (("cut",) if retexc else ("exc", "cut")))
                ctx.check(c.cancel_requested or "cut" in [outcome[i] for i in firsts],
                          lambda: f"gather raised CancelledError for {[(i, outcome[i]) for i in order]}", "exc")
                return
            except Boom as e:
                ctx.log("raised", e.args)
                ctx.check(not retexc, lambda: f"gather raised {e!r} with return_exceptions", "exc")
                firsts = first(i for i in order if outcome[i] in ("exc", "cut"))
                ctx.check(e.args[0] in firsts, lambda: f"gather raised {e!r} but the first failure was {firsts}", "exc")
                return
            ctx.log("result", res)
            ctx.check(all(outcome), "gather returned before everything was done", "early")
            ctx.check(retexc or not {"exc", "cut"} & set(outcome), lambda: f"gather returned {res} although awaitables failed: {outcome}", "exc")
            keep = [i for i in range(n) if not (exclude and outcome[i] in ("neg", "exc"))]
            if mapping:
                ctx.check(type(res) is dict and list(res) == [keys[i] for i in keep] and all(same(res[keys[i]], i, outcome[i]) for i in keep),
                          lambda: f"gather returned {res} for outcomes {outcome}", "result")
            else:
                ctx.check(len(res) == len(keep) and all(same(res[k], i, outcome[i]) for k, i in enumerate(keep)),
                          lambda: f"gather returned {res} for outcomes {outcome}", "result")

        c = r.client("G", client, auto=True)
        if cancel:
            r.cancel_event(c)

        def quiescent():
            tick()
            fin = all(outcome) or (not retexc and {"exc", "cut"} & set(outcome))
            ctx.check(c.done or not fin, "gather still waits although everything is done", "hang")
            if c.cancel_requested:
                ctx.check(c.done, "gather still waits although it was cancelled", "hang")
                if not mapping and not tqdm and not fin and st.get("called"):
                    # as asyncio's gather: what has not finished is cancelled along
                    left = [i for i in range(n) if outcome[i] is None and futs[i] is not None and not futs[i].done()]
                    ctx.check(not left, lambda: f"{left} still run although gather was cancelled", "cancel")

        r.loop.on_quiescent = quiescent
        r.go()
        quiescent()


def completed_body(ctx, kinds, mapping, retexc, aiter, tqdm, timeout=None, fixed=None, cancel=False):
    from a_sync import as_completed

    with Run(ctx) as r:
        aws, order, outcome, first, tick, futs = world(ctx, r, kinds, fixed)
        n = len(kinds)
        kw = dict(tqdm=True, disable=True) if tqdm else {}
        if retexc:
            kw["return_exceptions"] = True
        if timeout is not None:
            kw["timeout"] = timeout
        if aiter:
            kw["aiter"] = True
        keys = [f"k{i}" for i in range(n)]
        seen = []
        st = dict(timed_out=False)
        t0 = r.loop.vtime

        def got(res):
            ctx.log("got", res)
            cands = first(i for i in order if i not in seen)
            ctx.check(cands, lambda: f"a result {res} before anything else finished", "early")
            v = res
            if mapping:
                ctx.check(type(res) is tuple and len(res) == 2, lambda: f"{res!r} is not an item", "order")
                cands = [i for i in cands if keys[i] == res[0]]
                v = res[1]
            cands = [i for i in cands if same(v, i, outcome[i]) and (retexc or outcome[i] not in ("exc", "cut"))]
            ctx.check(cands, lambda: f"{res} was not due: order {order} outcomes {outcome}", "order")
            seen.append(cands[0])

        def raised(e):
            ctx.log("raised", e.args)
            ctx.check(not retexc, lambda: f"raised {e!r} with return_exceptions", "exc")
            cands = first(i for i in order if i not in seen)
            ctx.check(e.args[0] in cands and outcome[e.args[0]] == "exc", lambda: f"raised {e!r}: order {order} outcomes {outcome}", "order")
            seen.append(e.args[0])

        def cut():
            ctx.log("cancelled")
            cands = [i for i in first(i for i in order if i not in seen) if outcome[i] == "cut"]
            if not cands and c.cancel_requested:
                raise asyncio.CancelledError
            ctx.check(cands, lambda: f"raised CancelledError: order {order} outcomes {outcome}", "order")
            seen.append(cands[0])

        def timedout():
            ctx.log("timeout")
            ctx.check(timeout is not None, "TimeoutError without a timeout", "timeout")
            ctx.check(r.loop.vtime >= t0 + timeout - 1e-6, lambda: f"TimeoutError after {r.loop.vtime - t0} s instead of {timeout}", "timeout")
            st["timed_out"] = True

        async def client(c):
            fs = dict(zip(keys, aws)) if mapping else aws
            if aiter:
                try:
                    async for res in as_completed(fs, **kw):
                        got(res)
                except Boom as e:
                    raised(e)
                    st["stop"] = True
                    return
                except asyncio.CancelledError:
                    cut()
                    return
                except asyncio.TimeoutError:
                    timedout()
                    return
                ctx.check(len(seen) == n, lambda: f"the iteration ended after {len(seen)} of {n} results", "missing")
            else:
                m = 0
                for coro in as_completed(fs, **kw):
                    m += 1
                    try:
                        got(await coro)
                    except Boom as e:
                        raised(e)
                    except asyncio.CancelledError:
                        cut()
                    except asyncio.TimeoutError:
                        timedout()
                ctx.check(m == n, lambda: f"{m} iterations for {n} awaitables", "missing")

        c = r.client("C", client, auto=True)
        if cancel:
            r.cancel_event(c)

        def quiescent():
            tick()
            if c.done:
                return
            ctx.check(not c.cancel_requested, "the caller still waits although it was cancelled", "hang")
            nxt = len(seen)
            ctx.check(nxt >= len(order), "a finished awaitable is not handed out", "hang")
            if timeout is not None:
                due = [h._when for h in r.loop._scheduled if not h._cancelled]
                ctx.check(due and min(due) <= t0 + timeout + 1e-6, "the caller waits beyond the timeout it asked for", "timeout")

        r.loop.on_quiescent = quiescent
        r.go()
        if st["timed_out"]:
            ctx.check(timeout is not None, "timed out", "timeout")


def scenarios(tier):
    q = tier == "quick"
    S = []
    mixes = [("coro", "future"), ("task", "object")] if q else [("coro", "future"), ("task", "object"), ("object", "coro"), ("future", "task")]
    B = 2 if q else 3
    for mapping in (False, True):
        for retexc in (False, True):
            for tqdm in (False, True):
                for exclude in (False, True):
                    for m in mixes:
                        S.append(Scenario(f"gather-{'map' if mapping else 'pos'}{'-rx' if retexc else ''}{'-ex' if exclude else ''}{'-tqdm' if tqdm else ''}-{m[0]}",
                                          functools.partial(gather_body, kinds=m, mapping=mapping, retexc=retexc, exclude=exclude, tqdm=tqdm), B))
                for aiter in (False, True):
                    for m in mixes:
                        S.append(Scenario(f"asc-{'map' if mapping else 'seq'}{'-rx' if retexc else ''}{'-aiter' if aiter else ''}{'-tqdm' if tqdm else ''}-{m[0]}",
                                          functools.partial(completed_body, kinds=m, mapping=mapping, retexc=retexc, aiter=aiter, tqdm=tqdm), B))
        for aiter in (False, True):
            for timeout in (0, 0.5, 2, 1.5):
                for retexc in (False, True):
                    S.append(Scenario(f"asc-timeout{timeout}-{'map' if mapping else 'seq'}{'-aiter' if aiter else ''}{'-rx' if retexc else ''}",
                                      functools.partial(completed_body, kinds=("coro", "coro"), mapping=mapping, retexc=retexc, aiter=aiter,
                                                        tqdm=timeout == 1.5, timeout=timeout, fixed=("ok", "exc")), B))
        for rx in (False, True):
            for tqdm in (False, True):
                t = f"{'map' if mapping else 'pos'}{'-rx' if rx else ''}{'-tqdm' if tqdm else ''}"
                for m in mixes:
                    S.append(Scenario(f"gather-cancel-{t}-{m[0]}", functools.partial(
                        gather_body, kinds=m, mapping=mapping, retexc=rx, exclude=False, tqdm=tqdm, cancel=True), B))
                for aiter in (False, True):
                    S.append(Scenario(f"asc-cancel-{t}{'-aiter' if aiter else ''}", functools.partial(
                        completed_body, kinds=("coro", "future"), mapping=mapping, retexc=rx, aiter=aiter, tqdm=tqdm, cancel=True), B))
            for m in mixes:
                t = f"{'map' if mapping else 'pos'}{'-rx' if rx else ''}"
                for tqdm in (False, True):
                    S.append(Scenario(f"gather-cut-{t}{'-tqdm' if tqdm else ''}-{m[0]}", functools.partial(
                        gather_body, kinds=m, mapping=mapping, retexc=rx, exclude=True, tqdm=tqdm, fixed=("ok", "exc", "cut")), B))
                for aiter in (False, True):
                    S.append(Scenario(f"asc-cut-{t}{'-aiter' if aiter else ''}-{m[0]}", functools.partial(
                        completed_body, kinds=m, mapping=mapping, retexc=rx, aiter=aiter, tqdm=False, fixed=("ok", "exc", "cut")), B))
            S.append(Scenario(f"gather3-{'map' if mapping else 'pos'}{'-rx' if rx else ''}",
                              functools.partial(gather_body, kinds=("coro",) * 3, mapping=mapping, retexc=rx, exclude=True, tqdm=False), 1 if q else 2))
            S.append(Scenario(f"asc3-{'map' if mapping else 'pos'}{'-rx' if rx else ''}",
                              functools.partial(completed_body, kinds=("coro",) * 3, mapping=mapping, retexc=rx, aiter=True, tqdm=False), 1 if q else 2))
        S.append(Scenario(f"gather4-{'map' if mapping else 'pos'}",
                          functools.partial(gather_body, kinds=("coro",) * 4, mapping=mapping, retexc=False, exclude=False, tqdm=False, fixed=("ok",)), 1 if q else 2))
        S.append(Scenario(f"gather0-{'map' if mapping else 'pos'}",
                          functools.partial(gather_body, kinds=(), mapping=mapping, retexc=False, exclude=False, tqdm=False), 0))
        S.append(Scenario(f"asc0-{'map' if mapping else 'pos'}",
                          functools.partial(completed_body, kinds=(), mapping=mapping, retexc=False, aiter=True, tqdm=False), 0))
    return S
