"""C22: ASyncFuture — every expression over futures has the value (or exception) the same expression over plain values has, every
underlying awaitable runs once, in whatever order and however concurrently the parts are awaited."""
import asyncio
import operator
from decimal import Decimal

from mc.explore import Scenario
from mc.loop import Run
from checks.c15 import Inline

ASSUMPTIONS = ["expressions of up to 3 operators over 3 futures and constants; one event loop; up to 3 concurrent awaiters"]


class Boom(Exception):
    pass


ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "**": operator.pow}
COMP = {">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne}
VALUES = [2, 0, -3, 2.5, Decimal("1.5"), "ab", [1, 2], True]


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("exc", type(e), str(e))


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "exc":
        return a[1:] == b[1:]
    return type(a[1]) is type(b[1]) and a[1] == b[1]


class Env:
    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.runs = {}

    def fut(self, name, value, exc=None):
        from a_sync import ASyncFuture

        async def co():
            self.runs[name] = self.runs.get(name, 0) + 1
            await asyncio.sleep(0)
            if exc is not None:
                raise exc
            return value
        return ASyncFuture(co())

    def once(self, used):
        for n in used:
            self.ctx.check(self.runs.get(n) == 1, lambda: f"the awaitable of {n} ran {self.runs.get(n)} times", "runs")


def close(*futs):
    for f in futs:
        aw = getattr(f, "__awaitable__", None) if type(f).__name__ == "ASyncFuture" else None
        if aw is not None and asyncio.iscoroutine(aw):
            aw.close()


def get(ctx, r, f, how):
    if how == "await":
        async def m():
            return await f
        res = r.try_run(m())
        return (res[0], res[1]) if res[0] == "ok" else ("exc", type(res[1]), str(res[1])) if res[0] == "exc" else res
    return outcome(lambda: f.result())


def binary(ctx, op, sides):
    """a op b, each side a future or a constant; got by await or by result()"""
    with Run(ctx) as r:
        env = Env(ctx, r)
        a = ctx.pick(VALUES, "a=")
        b = ctx.pick(VALUES, "b=")
        if op == "**" and not isinstance(b, (int, str, list)) and a in (0, -3):
            return
        how = ctx.pick(["await", "result"], "how=")
        want = outcome(lambda: ARITH[op](a, b))
        fa = env.fut("a", a) if sides[0] == "f" else a
        fb = env.fut("b", b) if sides[1] == "f" else (fa if sides[1] == "s" else b)
        if sides[1] == "s":
            want = outcome(lambda: ARITH[op](a, a))

        def build():
            return ARITH[op](fa, fb)
        try:
            f = r.setup(build) if how == "await" else build()
        except TypeError as e:  # constants like "ab" know how to refuse themselves
            ctx.check(want[0] == "exc", lambda: f"{a!r} {op} {b!r}: {e}", "value")
            close(fa, fb)
            return
        got = get(ctx, r, f, how)
        ctx.log(a, op, b, got)
        ctx.check(same(got, want), lambda: f"{a!r} {op} {b!r} over futures is {got}, should be {want}", "value")
        again = get(ctx, r, f, how)
        ctx.check(same(again, want), lambda: f"{a!r} {op} {b!r}: a second read gives {again}", "again")
        env.once(["a"] * (sides[0] == "f") + ["b"] * (sides[1] == "f"))


def compare(ctx, op, sides):
    with Run(ctx) as r:
        env = Env(ctx, r)
        a = ctx.pick(VALUES, "a=")
        b = ctx.pick(VALUES, "b=")
        want = outcome(lambda: COMP[op](a, b))
        fa = env.fut("a", a) if sides[0] == "f" else a
        fb = env.fut("b", b) if sides[1] == "f" else (fa if sides[1] == "s" else b)
        if sides[1] == "s":
            want = outcome(lambda: COMP[op](a, a))
        if op in ("==", "!="):
            got = outcome(lambda: COMP[op](fa, fb))
        elif ctx.pick(["bool", "await"], "how=") == "bool":
            got = outcome(lambda: bool(COMP[op](fa, fb)))
        else:
            got = get(ctx, r, COMP[op](fa, fb), "await")
        ctx.log(a, op, b, got)
        # the reflected operator words its TypeError the other way round
        ctx.check(same(got[:2], want[:2]), lambda: f"{a!r} {op} {b!r} over futures is {got}, should be {want}", "value")
        env.once(["a"] * (sides[0] == "f") + ["b"] * (sides[1] == "f"))


UNARY = {
    "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "[0]": lambda x: x[0], "in": lambda x: 1 in x, "'a' in": lambda x: "a" in x,
    "iter": lambda x: list(iter(x)), "attr": lambda x: x.real, "method": lambda x: x.index(1), "noattr": lambda x: x.nosuchattr,
    "for": lambda x: [y for y in x], "next": lambda x: next(x), "with": lambda x: _with(x), "sum": lambda x: sum([x, x]),
}


class CM:
    def __init__(self):
        self.log = []

    def __enter__(self):
        self.log.append("in")
        return "cm"

    def __exit__(self, *a):
        self.log.append(("out", a[0]))
        return True

    def __eq__(self, o):
        return isinstance(o, CM)


def _with(x):
    with x as y:
        if y == "cm":
            raise Boom()
    return y


def unary(ctx, when):
    """conversions and accesses, before the value is there (outside the loop) and after it was awaited (inside the loop)"""
    with Run(ctx) as r:
        env = Env(ctx, r)
        op = ctx.pick(list(UNARY), "op=")
        mks = [lambda v=v: v for v in VALUES] + [lambda: b"xy", lambda: iter([7, 8]), CM, lambda: {0: 5, 1: 6}]
        mk = mks[ctx.pick(list(range(len(mks))), "value#")]
        want = outcome(lambda: UNARY[op](mk()))
        if op in ("next", "iter", "with", "for") and want[0] == "exc":
            return
        fut = env.fut("a", mk())
        if when == "outside":
            got = outcome(lambda: _val(UNARY[op](fut)))
        elif when == "after":
            r.run(_aw(fut))
            got = outcome(lambda: _val(UNARY[op](fut)))
        else:
            async def inside():
                await fut
                x = outcome(lambda: UNARY[op](fut))
                return ("ok", await x[1]) if op == "sum" and x[0] == "ok" else x
            if op in ("in", "'a' in", "sum"):
                return  # a new expression over the future: it is not there yet
            got = r.run(inside())
        ctx.log(op, got)
        if want[0] == "exc":
            ctx.check(got[0] == "exc" and got[1] is want[1], lambda: f"{op} of {mk()!r} is {got}, should be {want}", "value")
        else:
            ctx.check(same(got, want), lambda: f"{op} of {mk()!r} {when} the loop is {got}, should be {want}", "value")
        if env.runs:
            env.once(["a"])
        close(fut)


def _val(x):
    return x.result() if type(x).__name__ == "ASyncFuture" else x


async def _aw(x):
    return await x


def failing(ctx):
    """exceptions of the awaitable reach every reader, unchanged"""
    with Run(ctx) as r:
        env = Env(ctx, r)
        exc = {"Boom": Boom("b"), "Runtime": RuntimeError("mine"), "Value": ValueError("v"), "Key": KeyError("k"), "StopAsync": StopAsyncIteration("s"),
               "Timeout": TimeoutError("t")}
        exc = exc[ctx.pick(list(exc), "exc=")]
        f = env.fut("a", 0, exc)
        g = env.fut("b", 1)
        how = ctx.pick(["await", "result", "bool", "add", "radd", "eq", "int", "expr"], "how=")
        want = ("exc", type(exc), str(exc))
        for _ in range(2):
            if how == "await":
                got = get(ctx, r, f, "await")
            elif how == "expr":
                got = get(ctx, r, r.setup(lambda: (g + f) * 2), "await")
            else:
                got = outcome({"result": lambda: f.result(), "bool": lambda: bool(f), "add": lambda: (f + 1).result(), "radd": lambda: (1 + f).result(),
                               "eq": lambda: f == 1, "int": lambda: int(f)}[how])
            ctx.log(how, got)
            ctx.check(got == want, lambda: f"{how} of a future that fails with {exc!r} gives {got}", "exc")
        env.once(["a"])
        close(g)


def settled(ctx):
    """a future whose outcome was set or which was cancelled by its owner"""
    import concurrent.futures

    with Run(ctx) as r:
        env = Env(ctx, r)
        f = env.fut("a", 1)
        how = ctx.pick(["result", "exception", "cancel"], "set=")
        {"result": lambda: f.set_result(5), "exception": lambda: f.set_exception(Boom("x")), "cancel": f.cancel}[how]()
        read = ctx.pick(["await", "int", "add"], "read=")
        got = {"await": lambda: get(ctx, r, f, "await"), "int": lambda: outcome(lambda: int(f)),
               "add": lambda: get(ctx, r, r.setup(lambda: f + 0), "await")}[read]()
        ctx.log(how, read, got)
        if how == "result":
            ctx.check(got == ("ok", 5), lambda: f"{read} gives {got}", "settled")
        elif how == "exception":
            ctx.check(got == ("exc", Boom, "x"), lambda: f"{read} of a future with an exception gives {got}", "settled")
        else:
            ctx.check(got[0] == "cancelled" or got[0] == "exc" and issubclass(got[1], (concurrent.futures.CancelledError, asyncio.CancelledError)),
                      lambda: f"{read} of a cancelled future gives {got}", "settled")
        close(f)


TREES = {
    "a+b": (lambda a, b, c: a + b, "ab"), "(a+b)*c": (lambda a, b, c: (a + b) * c, "abc"), "a*a-b": (lambda a, b, c: a * a - b, "ab"),
    "(a-b)/(c)": (lambda a, b, c: (a - b) / c, "abc"), "2**a-(b//c)": (lambda a, b, c: 2**a - (b // c), "abc"),
    "a<b": (lambda a, b, c: a < b, "ab"), "(a+1)>=(b*c)": (lambda a, b, c: (a + 1) >= (b * c), "abc"), "sum": (lambda a, b, c: sum([a, b, c]), "abc"),
    "share": (lambda a, b, c: (lambda s: (s + a) * s)(a + b), "ab"),
}


def concurrent(ctx, exprs, failname=None):
    """several clients await expressions that share futures; the futures finish when the environment says so"""
    from a_sync import ASyncFuture

    vals = {"a": 3, "b": 4, "c": 2}
    with Run(ctx) as r:
        runs, gates = {}, {}

        def mk(n):
            async def co():
                runs[n] = runs.get(n, 0) + 1
                gates[n] = r.loop.create_future()
                await gates[n]
                if n == failname:
                    raise Boom(n)
                return vals[n]
            return ASyncFuture(co())
        futs = {n: mk(n) for n in "abc"}
        used = set()
        got = {}

        def client(name, e):
            fn, names = TREES[e]

            async def run(c):
                c.expect = (Boom,)
                used.update(names)
                f = fn(*(futs[n] for n in "abc"))
                try:
                    got[name] = ("ok", await f)
                except Boom as x:
                    got[name] = ("exc", Boom, str(x))
                    raise
                finally:
                    ctx.log(name, got.get(name))
            return run
        for n in "abc":
            r.event(f"finish {n}", lambda n=n: gates[n].set_result(None), lambda n=n: n in gates and not gates[n].done() and bool(gates[n]._callbacks))
        for i, e in enumerate(exprs):
            r.client("ABC"[i], client("ABC"[i], e))
        r.go()
        for i, e in enumerate(exprs):
            fn, names = TREES[e]
            want = ("exc", Boom, failname) if failname and failname in names else ("ok", fn(*(vals[n] for n in "abc")))
            g = got["ABC"[i]]
            ctx.check(g == want, lambda: f"{e} gave {g}, should give {want}", "value")
        for n in used:
            ctx.check(runs.get(n) == 1, lambda: f"the awaitable of {n} ran {runs.get(n)} times", "runs")
        close(*(futs[n] for n in "abc" if n not in used))


def decorated(ctx):
    """@future functions and methods"""
    from a_sync import future

    with Run(ctx) as r:
        kind = ctx.pick(["async", "sync"], "kind=")
        form = ctx.pick(["bare", "call"], "form=")
        where = ctx.pick(["function", "method", "class access", "asyncclass"], "where=")
        runs = []
        deco = (lambda f: future(f, executor=Inline())) if form == "bare" else future(executor=Inline())

        def work(*a, **k):
            runs.append((a, k))
            if a[-1] == "boom":
                raise Boom("boom")
            return a[-1] * 2
        if kind == "async":
            async def f(x, y=1):
                await asyncio.sleep(0)
                return work(x)

            async def m(self, x, y=1):
                return work(self, x)
        else:
            def f(x, y=1):
                return work(x)

            def m(self, x, y=1):
                return work(self, x)
        arg = ctx.pick([3, "boom"], "arg=")
        if where == "function":
            x = deco(f)(arg)
            owner = ()
        else:
            if where == "asyncclass":
                from a_sync import ASyncBase

                class C(ASyncBase):
                    sync = False
                    m_ = deco(m)
                    meth = m_
            else:
                class C:
                    meth = deco(m)
            o = C()
            owner = (o,)
            x = C.meth(o, arg) if where == "class access" else o.meth(arg)
        e = r.setup(lambda: x + 1) if ctx.pick([True, False], "expr=") else x
        plus = 0 if e is x else 1
        got = get(ctx, r, e, ctx.pick(["await", "result"], "how="))
        ctx.log(got)
        want = ("exc", Boom, "boom") if arg == "boom" else ("ok", 6 + plus)
        ctx.check(got == want, lambda: f"{kind} {where}: {got}, should be {want}", "value")
        ctx.check(len(runs) == 1 and runs[0][0][:-1] == owner, lambda: f"{kind} {where}: ran with {runs}", "runs")


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, fn, *a, bound=0, **k):
        S.append(Scenario(name, lambda ctx: fn(ctx, *a, **k), bound))

    for op in ARITH:
        for sides in ("ff", "fc", "cf", "fs"):
            add(f"binary-{op}-{sides}", binary, op, sides)
    for op in COMP:
        for sides in ("ff", "fc", "cf", "fs"):
            add(f"compare-{op}-{sides}", compare, op, sides)
    for when in ("outside", "after", "inside"):
        add(f"unary-{when}", unary, when)
    add("failing", failing)
    add("settled", settled)
    add("decorated", decorated)
    b = 2 if q else 3
    names = list(TREES)
    for i, e in enumerate(names):
        add(f"conc-{e}|{names[i - 1]}", concurrent, [e, names[i - 1]], bound=b)
        add(f"conc-fail-{e}", concurrent, [e, "a+b"], "b", bound=b - 1)
    add("conc-3", concurrent, ["a+b", "(a+b)*c", "share"], bound=b - 1)
    return S
