"""C17: utils.any / utils.all — the truth value of the results, decided as soon as it is certain, the rest cancelled."""
import asyncio
import functools

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["up to 4 awaitables which finish in every order with a truthy or falsy result or an exception"]


class Boom(Exception):
    pass


class RBoom(Boom, RuntimeError):
    pass


class BadTruth:
    """a result that has no truth value"""

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        raise self.e


class Truth:
    """truthiness that is not a bool"""

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return self.b


def body(ctx, which, n, kinds, outs=("true", "false", "exc")):
    from a_sync import utils

    fn = getattr(utils, which)
    deciding = which == "any"
    with Run(ctx) as r:
        loop = r.loop
        futs, outcome, order, cancelled, starts = {}, {}, [], [], []

        def finish(i, out):
            outcome[i] = out
            order.append((ep[0], i))
            ctx.log("finish", i, out)
            if out == "cut":  # the work ends in a cancellation of its own
                futs[i].cancel()
            elif out == "exc":
                e = (Boom if i % 2 else RBoom)(i)
                if i == 2:
                    futs[i].set_result(BadTruth(e))
                else:
                    futs[i].set_exception(e)
            else:
                futs[i].set_result(Truth(out == "true"))

        def aw(i):
            async def work():
                ctx.check(i not in starts, f"awaitable {i} was started twice", "twice")
                starts.append(i)
                futs[i] = loop.create_future()
                try:
                    return await futs[i]
                except asyncio.CancelledError:
                    cancelled.append(i)
                    raise
            if kinds[i] == "coro":
                return work()
            if kinds[i] == "task":
                return r.setup(lambda: loop.create_task(work()))

            class Obj:
                def __await__(self):
                    return work().__await__()
            return Obj()

        aws = [aw(i) for i in range(n)]
        for i in range(n):
            for out in outs:
                r.event(f"{out}{i}", functools.partial(finish, i, out), lambda i=i: i not in outcome and i in futs and not futs[i].done())

        ep = [0]  # completions between two quiescent points count as simultaneous

        def expected():
            deciders = [(e, i) for e, i in order if outcome[i] in ("exc", "cut") or (outcome[i] == "true") is deciding]
            if deciders:
                e0 = min(deciders)[0]
                return [(outcome[i], i) if outcome[i] in ("exc", "cut") else ("ok", deciding) for e, i in deciders if e == e0]
            return [("ok", not deciding)] if len(order) == n else []

        async def client(c):
            try:
                res = await fn(*aws)
            except asyncio.CancelledError:
                ctx.log("cancelled")
                ctx.check("cut" in [o for o, _ in expected()], lambda: f"{which} raised CancelledError for {[(i, outcome[i]) for _, i in order]}", "result")
                return
            except Boom as e:
                ctx.log("raised", e.args)
                ctx.check(("exc", e.args[0]) in expected(), lambda: f"{which} raised {e!r} for {[(i, outcome[i]) for _, i in order]}", "result")
                return
            ctx.log("result", res)
            ctx.check(type(res) is bool and ("ok", res) in expected(), lambda: f"{which} returned {res} for {[(i, outcome[i]) for _, i in order]}", "result")
            c.result_ = res

        c = r.client("A", client, auto=True)
        c.result_ = None

        def quiescent():
            ep[0] += 1
            ctx.check(c.done == bool(expected()), lambda: f"{which} {'ended' if c.done else 'still waits'} after {[(i, outcome[i]) for _, i in order]}", "hang")
            if c.done and c.result_ is deciding:
                left = [i for i in range(n) if i not in outcome and i not in cancelled and i in futs]
                ctx.check(not left, lambda: f"{which} returned {deciding} but left {left} running", "uncancelled")

        r.loop.on_quiescent = quiescent
        r.go(until=lambda: c.done)
        r.settle()
        quiescent()


def scenarios(tier):
    q = tier == "quick"
    S = []
    for w in ("any", "all"):
        for n in range(4 if q else 5):
            for ki, k in enumerate((("coro",) * 4, ("task", "object", "coro", "task"))):
                S.append(Scenario(f"{w}{n}-{ki}", functools.partial(body, which=w, n=n, kinds=k), (1 if n == 3 else 2) if q else 3))
            S.append(Scenario(f"{w}{n}-cut", functools.partial(body, which=w, n=n, kinds=("coro", "object", "task", "coro"), outs=("true", "false", "cut")),
                              (1 if n == 3 else 2) if q else 3))
    return S
