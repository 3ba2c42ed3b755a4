"""C13: as_yielded / exhaust_iterators — every item of every source exactly once, in order of production, as soon as it
is available; a failing source's exception after all items; for every interleaving of producers and consumer."""
import asyncio
import functools

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["up to 3 sources of up to 3 items; sources that produce at once or when the environment says so and end or "
               "fail; a consumer that takes items at once or pauses between them; cancellation of the consumer"]


class Boom(Exception):
    pass


def sources(ctx, r, specs):
    """specs: list of (actions, ending): actions is a string over 'n' (produce now) and 'g' (produce at a gate)"""
    produced, excs, ended, active = [], {}, [], set()
    gates = {}

    async def src(k):
        acts, end = specs[k]
        n = 0
        for a in acts + ("g" if end.startswith("g-") else "n"):
            if a == "g":
                gates[k] = r.loop.create_future()
                ctx.check(k not in active, f"source {k} is advanced twice at a time", "reentrant")
                active.add(k)
                try:
                    await gates[k]
                finally:
                    active.discard(k)
                    gates.pop(k)
            if n < len(acts):
                produced.append((k, n))
                ctx.log("produce", k, n)
                n += 1
                yield (k, n - 1)
        ended.append(k)
        ctx.log("end", k)
        if end.endswith("exc"):
            excs[k] = Boom(k)
            raise excs[k]
        if end.endswith("cut"):
            # what it waits for was cancelled, but nobody cancelled the source or its consumer
            excs[k] = asyncio.CancelledError(k)
            raise excs[k]

    for k in range(len(specs)):
        r.event(f"go{k}", lambda k=k: gates[k].set_result(None), lambda k=k: k in gates and not gates[k].done(), repeat=True)
    return [src(k) for k in range(len(specs))], produced, excs, ended, gates


def same(how, excs):
    """how is one of them (a cancellation may have been passed on by a new exception)"""
    return how in excs.values() or isinstance(how, asyncio.CancelledError) and any(type(e) is type(how) for e in excs.values())


def yielded(ctx, specs, pause=False, cancel=False, stop_after=None):
    from a_sync import as_yielded

    with Run(ctx) as r:
        its, produced, excs, ended, gates = sources(ctx, r, specs)
        seen = []
        st = dict(waiting=False)

        async def client(c):
            gen = as_yielded(*its)
            try:
                st["waiting"] = True
                async for item in gen:
                    st["waiting"] = False
                    ctx.log("got", item)
                    ctx.check(isinstance(item, tuple), lambda: f"an internal object is exposed: {item!r}", "exposed")
                    ctx.check(item not in seen, lambda: f"{item} was delivered twice", "twice")
                    ctx.check(len(seen) < len(produced) and item == produced[len(seen)],
                              lambda: f"{item} was delivered where {produced[len(seen):][:1]} was due", "order")
                    seen.append(item)
                    if pause:
                        await r.gate(c, "next")
                    if stop_after is not None and len(seen) == stop_after:
                        await gen.aclose()
                        return
                    st["waiting"] = True
                how = "end"
            except Boom as e:
                how = e
            except asyncio.CancelledError as e:
                if c.cancel_requested:
                    await gen.aclose()  # in case it was cancelled between two items
                    raise
                how = e
            ctx.log("ended", type(how).__name__)
            ctx.check(len(ended) == len(specs), lambda: f"the iteration ended although only {ended} of {len(specs)} sources did", "early")
            ctx.check(seen == produced, lambda: f"{[p for p in produced if p not in seen]} were produced but not delivered", "lost")
            if how == "end":
                ctx.check(not excs, lambda: f"the failure of {list(excs)} was swallowed", "exc")
            else:
                ctx.check(same(how, excs), lambda: f"{how!r} raised instead of one of {excs}", "exc")

        c = r.client("C", client, auto=True)
        if cancel:
            r.cancel_event(c)

        def quiescent():
            if c.done:
                return
            if st["waiting"]:
                ctx.check(seen == produced, lambda: f"the consumer waits although {[p for p in produced if p not in seen]} are there", "hang")
                ctx.check(len(ended) < len(specs), "the consumer waits although all sources ended", "hang")

        r.loop.on_quiescent = quiescent
        r.go(until=lambda: c.done)
        r.settle()
        quiescent()
        # the consumer is gone, wherever it was when it was cancelled or left
        open_ = [k for k in sorted(gates) if not gates[k].done()]
        ctx.check(not open_, lambda: f"sources {open_} are still being asked for items when the consumer is gone", "goes-on")


def exhaust(ctx, specs, use_queue, join):
    from a_sync.utils.iterators import exhaust_iterators, exhaust_iterator

    with Run(ctx) as r:
        its, produced, excs, ended, gates = sources(ctx, r, specs)
        q = r.setup(asyncio.Queue) if use_queue else None
        got = []
        st = dict(processed=0, sentinel=0, items=0)

        async def client(c):
            try:
                if len(specs) == 1 and not join:
                    await exhaust_iterator(its[0], queue=q)
                else:
                    await exhaust_iterators(its, queue=q, join=join)
                how = None
            except (Boom, asyncio.CancelledError) as e:
                how = e
            ctx.log("done", type(how).__name__)
            ctx.check(len(ended) == len(specs), lambda: f"returned although only {ended} of {len(specs)} sources ended", "early")
            ctx.check((how is None) == (not excs) and (how is None or same(how, excs)), lambda: f"{how!r} with failures {excs}", "exc")
            if use_queue and not join:
                while not q.empty():
                    x = q.get_nowait()
                    if isinstance(x, tuple):
                        got.append(x)
                ctx.check(got == produced, lambda: f"queued {got} for {produced}", "lost")
            if join and how is None:
                ctx.check(got == produced and q._unfinished_tasks == 0, lambda: f"returned before all of {produced} was processed: {got}", "join")

        c = r.client("C", client, auto=True)
        if join:
            async def consumer():
                while True:
                    x = await q.get()
                    if isinstance(x, tuple):
                        got.append(x)
                        f = st["gate"] = r.loop.create_future()
                        await f
                        st["gate"] = None
                    q.task_done()
            task = r.setup(lambda: r.loop.create_task(consumer()))
            st["gate"] = None
            r.event("processed", lambda: st["gate"].set_result(None), lambda: st["gate"] is not None and not st["gate"].done(), repeat=True)

        def quiescent():
            if not c.done:
                ctx.check(len(ended) < len(specs) or (join and st["gate"] is not None), "still waits although all sources ended", "hang")

        r.loop.on_quiescent = quiescent
        r.go(until=lambda: c.done)
        r.settle()
        quiescent()


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, bound, fn, specs, **k):
        S.append(Scenario(name, functools.partial(fn, specs=specs, **k), bound))

    B = 3 if q else 5
    for pause in (False, True):
        p = "-pause" if pause else ""
        add("one" + p, B, yielded, [("gng", "ok")], pause=pause)
        add("one-exc" + p, B, yielded, [("gnn", "g-exc")], pause=pause)
        add("one-exc-now" + p, B, yielded, [("gnn", "exc")], pause=pause)
        add("two" + p, B - 1, yielded, [("gg", "ok"), ("ngn", "ok")], pause=pause)
        add("two-exc" + p, B - 1, yielded, [("gg", "g-ok"), ("ng", "exc")], pause=pause)
        add("two-cut" + p, B - 1, yielded, [("gg", "g-ok"), ("ng", "cut")], pause=pause)
        add("two-cut-exc" + p, B - 1, yielded, [("gg", "cut"), ("ng", "exc")], pause=pause)
        add("two-exc2" + p, B - 1, yielded, [("gg", "exc"), ("ng", "exc")], pause=pause)
        add("three" + p, 1 if q else 2, yielded, [("g", "ok"), ("ng", "exc"), ("", "ok")], pause=pause)
        add("cancel" + p, B - 1, yielded, [("gg", "ok"), ("ng", "exc")], pause=pause, cancel=True)
        add("aclose" + p, B - 1, yielded, [("gg", "g-ok"), ("ng", "g-exc")], pause=pause, stop_after=2)
    add("none", 2, yielded, [])
    add("empty", 2, yielded, [("", "ok")])
    add("empty-exc", 2, yielded, [("", "exc"), ("", "ok")])
    for specs, nm in (([("gng", "ok")], "1"), ([("gn", "exc")], "1x"), ([("gg", "ok"), ("ng", "ok")], "2"), ([("gg", "exc"), ("ng", "g-ok")], "2x"), ([("gg", "g-ok"), ("ng", "cut")], "2c"), ([("gn", "g-cut")], "1c"), ([], "0")):
        add(f"exhaust-{nm}", B, exhaust, specs, use_queue=False, join=False)
        add(f"exhaust-queue-{nm}", B, exhaust, specs, use_queue=True, join=False)
        if nm != "0":
            add(f"exhaust-join-{nm}", B - 1, exhaust, specs, use_queue=True, join=True)
    return S
