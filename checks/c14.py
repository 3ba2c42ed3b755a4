"""C14: ASyncIterable / ASyncIterator / ASyncFilter / ASyncSorter / ASyncGeneratorFunction — in every mode of consumption the
items are those of the source, filtered and sorted exactly as filter() and sorted() would, each once, in order."""
import asyncio
import functools
from collections import deque

from mc.explore import Scenario
from mc.loop import Run

ASSUMPTIONS = ["sources of up to 4 (thorough: 5) items; chains of up to 2 (thorough: 3) filters and sorters; one consumer "
               "except in the concurrent scenarios; keys and filters are functions or coroutine functions"]


class Boom(Exception):
    pass


class Item:
    """compared by nothing but identity"""

    def __init__(self, k, i):
        self.k, self.i = k, i

    def __repr__(self):
        return f"{self.k}.{self.i}"


class Ordered(Item):
    def __lt__(self, other):
        return self.k < other.k


class Source:
    """a re-iterable async iterable"""

    def __init__(self, items, fail=None, gate=None):
        self.items, self.fail, self.gate, self.passes = items, fail, gate, 0

    def __aiter__(self):
        self.passes += 1
        return self.gen()

    async def gen(self):
        for n, x in enumerate(self.items):
            if n == self.fail:
                raise Boom("source")
            if self.gate is not None:
                await self.gate()
            yield x
        if self.fail == len(self.items):
            raise Boom("source")


class Stepper:
    """an async iterator that is not a generator"""

    def __init__(self, items, fail=None):
        self.it, self.n, self.fail = iter(items), 0, fail

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.n == self.fail:
            raise Boom("source")
        self.n += 1
        for x in self.it:
            return x
        raise StopAsyncIteration


class Falsy(Stepper):
    """... and has a length, which is 0 (say: of what it has buffered)"""

    def __len__(self):
        return 0


class FalsySync:
    """an iterator that is falsy"""

    def __init__(self, it):
        self.it = it

    def __len__(self):
        return 0

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def sync_source(items, fail):
    for n, x in enumerate(items):
        if n == fail:
            raise Boom("source")
        yield x
    if fail == len(items):
        raise Boom("source")


KINDS = ["iterable", "iterator", "stepper", "genfunc", "method", "base", "raw", "list"]
NOT_CHAINED = ("raw", "list", "falsy-raw", "falsy-list")
FALSY = ["falsy", "falsy-raw", "falsy-list"]


def build(kind, items, fail=None):
    """returns (object, its constructor-only?)"""
    from a_sync import ASyncIterable, ASyncIterator, ASyncGenericBase

    s = Source(items, fail)
    if kind == "iterable":
        return ASyncIterable(s)
    if kind == "iterator":
        return ASyncIterator(s.gen())
    if kind == "stepper":
        return ASyncIterator(Stepper(items, fail))
    if kind == "wrap-iterable":
        return ASyncIterable.wrap(s)
    if kind == "wrap-iterator":
        return ASyncIterator.wrap(Stepper(items, fail))
    if kind == "falsy":
        return ASyncIterator(Falsy(items, fail))
    if kind == "falsy-raw":
        return Falsy(items, fail)
    if kind == "falsy-list":
        return FalsySync(sync_source(items, fail))
    if kind == "genfunc":
        @ASyncIterator.wrap
        async def gf(a, *, b):
            assert (a, b) == (1, 2)
            async for x in s:
                yield x
        return gf(1, b=2)
    if kind == "method":
        class Plain:
            @ASyncIterator.wrap
            async def gm(self, a, *, b):
                assert (a, b) == (1, 2) and self is obj
                async for x in s:
                    yield x
        obj = Plain()
        return obj.gm(1, b=2)
    if kind == "base":
        class Dual(ASyncGenericBase):
            def __init__(self, sync):
                self.sync = sync
                super().__init__()

            async def gm(self, a, *, b):
                assert (a, b) == (1, 2) and self is obj
                async for x in s:
                    yield x
        obj = Dual(True)
        return obj.gm(1, b=2)
    if kind == "raw":
        return s.gen()
    return sync_source(items, fail) if fail is not None else list(items)


# ---- functions

def pred(ctx, mask, style, fail, calls):
    def f(x):
        calls.append(x)
        if len(calls) - 1 == fail:
            raise Boom("function")
        v = bool(mask >> x.k & 1)
        return v if style in ("sync", "async") else ([0] if v else [])

    if style.startswith("sync"):
        return f

    async def af(x):
        await asyncio.sleep(0)
        return f(x)
    if style == "lambda":  # not a coroutine function, but what it returns is awaitable
        return lambda x: af(x)
    if style == "object":
        class Predicate:
            async def __call__(self, x):
                return await af(x)
        return Predicate()
    if style == "future":
        def ff(x):
            fut = asyncio.get_running_loop().create_future()
            fut.set_result(f(x))
            return fut
        return ff
    return af if style != "async-partial" else functools.partial(af)


KEYS = {"id": lambda k: k, "neg": lambda k: -k, "half": lambda k: k // 2, "one": lambda k: 0}


def keyfn(which, style, fail, calls):
    def f(x):
        calls.append(x)
        if len(calls) - 1 == fail:
            raise Boom("function")
        return KEYS[which](x.k)

    if style == "sync":
        return f

    async def af(x):
        await asyncio.sleep(0)
        return f(x)
    return af if style != "async-partial" else functools.partial(af)


def ops(tier):
    out = []
    for mask in (0, 2, 5, 7):
        for style in ("sync", "sync-truthy", "async", "async-partial", "lambda", "object", "future"):
            if style in ("sync", "async") or mask == 5:
                out.append(("filter", mask, style))
    for rev in (False, True):
        out.append(("sort", None, "", rev))
        for which in KEYS:
            for style in ("sync", "async", "async-partial"):
                if style != "async-partial" or which == "half":
                    out.append(("sort", which, style, rev))
    return out


def apply_op(ctx, obj, op, fail=None):
    from a_sync.iter import ASyncFilter, ASyncSorter

    calls = []
    plain = not hasattr(obj, "filter")
    if op[0] == "filter":
        f = pred(ctx, op[1], op[2], fail, calls)
        return ASyncFilter(f, obj) if plain else obj.filter(f)
    _, which, style, rev = op
    kw = {} if which is None else {"key": keyfn(which, style, fail, calls)}
    if rev or style == "sync":
        kw["reverse"] = rev
    return ASyncSorter(obj, **kw) if plain else obj.sort(**kw)


def expect_op(items, op):
    if op[0] == "filter":
        return [x for x in items if op[1] >> x.k & 1]
    _, which, _, rev = op
    return sorted(items, key=lambda x: KEYS[which or "id"](x.k), reverse=rev)


def draw(ctx, lens, cls=Item, vals=(0, 1, 2)):
    n = ctx.pick(lens, "n=")
    return [cls(ctx.pick(vals, "k="), i) for i in range(n)]


MODES = ["async-for", "await", "sync-for", "materialized", "next+rest", "anext+await"]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def consume(ctx, r, obj, mode):
    """returns (items, exception)"""
    got = []

    async def afor():
        async for x in obj:
            got.append(x)

    async def aw():
        got.extend(await obj)

    async def an():
        async for x in obj:
            got.append(x)
            break
        if got:  # (an exhausted sorter refuses)
            got.extend(await obj)

    try:
        if mode == "async-for":
            r.run(afor(), "async for")
        elif mode == "await":
            r.run(aw(), "await")
        elif mode == "sync-for":
            for x in obj:
                got.append(x)
        elif mode == "materialized":
            got.extend(obj.materialized)
        elif mode == "next+rest":
            it = iter(obj)
            for x in it:
                got.append(x)
                break
            if got:
                got.extend(it)
        elif mode == "anext+await":
            r.run(an(), "async for, then await")
        return got, None
    except Boom as e:
        return got, e


def views(ctx, kind, lens, depth, tier, fixed=None):
    with Run(ctx) as r:
        chain = [ctx.pick(ops(tier), "op=") for _ in range(depth)] if fixed is None else [ctx.pick(fixed, "op=") for _ in range(depth)]
        cls = Ordered if any(o[0] == "sort" and o[1] is None for o in chain) else Item
        items = draw(ctx, lens, cls)
        modes = [m for m in MODES if m != "anext+await" or depth or kind in ("iterator", "stepper", "genfunc", "method", "base")]
        mode = ctx.pick(modes, "mode=")
        def make():
            obj = build(kind, items)
            for op in chain:
                obj = apply_op(ctx, obj, op)
            return obj
        obj = make()
        want = items
        for op in chain:
            want = expect_op(want, op)
        got, exc = consume(ctx, r, obj, mode)
        ctx.log(mode, got, exc)
        ctx.check(exc is None, lambda: f"{exc!r} came out of nowhere", "exception")
        ctx.check(same(got, want), lambda: f"{mode} of {kind} {items} with {chain} gives {got}, not {want}", "items")


def failing(ctx, kind, lens, tier):
    """a failure of the source or of the function reaches the consumer, after the items that came before it"""
    with Run(ctx) as r:
        opl = [("filter", 5, "sync"), ("filter", 7, "async"), ("sort", "neg", "sync", False), ("sort", "half", "async", True), None]
        op = ctx.pick(opl, "op=")
        if op is None and kind in NOT_CHAINED:
            return
        items = draw(ctx, lens)
        where = ctx.pick(["source"] + (["function"] if op and items else []), "fails=")
        at = ctx.pick(range(len(items) + (where == "source")), "at=")
        mode = ctx.pick(MODES[:4], "mode=")
        obj = build(kind, items, at if where == "source" else None)
        if op:
            obj = apply_op(ctx, obj, op, at if where == "function" else None)
        want = items[:at]
        if op:
            want = expect_op(want, op) if op[0] == "filter" else []
        if mode in ("await", "materialized"):
            want = []
        got, exc = consume(ctx, r, obj, mode)
        ctx.log(mode, got, exc)
        ctx.check(exc is not None and exc.args[0] == where, lambda: f"the failure of the {where} at {at} was swallowed: {got} {exc!r}", "swallowed")
        ctx.check(same(got, want), lambda: f"{mode} of {kind} {items} with {op} gives {got} before the failure, not {want}", "items")


def guard(ctx, kind, lens):
    """sync consumption inside the running loop is refused, and does not cost an item"""
    from a_sync.exceptions import SyncModeInAsyncContextError

    with Run(ctx) as r:
        op = ctx.pick([None, ("filter", 5, "sync"), ("filter", 5, "async"), ("sort", "neg", "sync", False), ("sort", "neg", "async", True)], "op=")
        if op is None and kind in NOT_CHAINED:
            return
        items = draw(ctx, lens, vals=(0, 1))
        obj = build(kind, items)
        if op:
            obj = apply_op(ctx, obj, op)
        want = expect_op(items, op) if op else items
        start = ctx.pick(range(len(want) + 1), "after=")
        how = ctx.pick(["next", "for", "list", "materialized"], "how=")
        if kind in ("iterable", "wrap-iterable") and op is None:
            start = 0

        async def main():
            import warnings
            got = []
            if start:
                async for x in obj:
                    got.append(x)
                    if len(got) == start:
                        break
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if how == "next":
                        next(iter(obj))
                    elif how == "for":
                        for x in obj:
                            break
                    elif how == "list":
                        list(obj)
                    else:
                        obj.materialized
                res = "done"
            except SyncModeInAsyncContextError:
                res = "refused"
            ctx.check(res == "refused", lambda: f"{how} in the running loop is not refused", "guard")
            async for x in obj:
                got.append(x)
            ctx.log(got)
            ctx.check(same(got, want), lambda: f"after a refused {how}: {got} of {want}", "lost")

        r.run(main())


def history(ctx, kind, n, depth):
    """every sequence of next / anext / async for + break / rest on one iterator"""
    with Run(ctx) as r:
        items = [Item(i, i) for i in range(n)]
        op = ctx.pick([None, ("filter", 0b1101, "async"), ("filter", 0b1101, "object"), ("sort", "neg", "sync", False), ("sort", "half", "async-partial", True)], "op=")
        obj = build(kind, items)
        if op:
            obj = apply_op(ctx, obj, op)
        left = deque(expect_op(items, op) if op else items)

        async def take(k):
            got = []
            async for x in obj:
                got.append(x)
                if len(got) == k:
                    break
            return got

        for _ in range(depth):
            what = ctx.pick(["next", "anext", "take1", "take2", "rest", "arest"], "do=")
            ctx.step()
            if op and op[0] == "sort" and not left and what.startswith(("take", "arest")):
                # a consumed sorter may refuse
                try:
                    got = r.run(take(9))
                except RuntimeError:
                    continue
                ctx.check(got == [], lambda: f"{got} out of an exhausted sorter", "twice")
                continue
            if what == "next":
                try:
                    got = [next(obj)]
                except StopIteration:
                    got = []
                want = [left.popleft()] if left else []
            elif what == "anext":
                async def one():
                    try:
                        return [await obj.__anext__()]
                    except StopAsyncIteration:
                        return []
                got = r.run(one())
                want = [left.popleft()] if left else []
            elif what == "rest":
                got = list(obj)
                want = list(left)
                left.clear()
            else:
                k = {"take1": 1, "take2": 2, "arest": 99}[what]
                got = r.run(take(k))
                want = [left.popleft() for _ in range(min(k, len(left)))]
            ctx.log(what, got)
            ctx.check(same(got, want), lambda: f"{what} gives {got}, not {want}", "items")


def again(ctx, lens):
    """an ASyncIterable over a re-iterable source can be iterated again and again"""
    from a_sync import ASyncIterable

    with Run(ctx) as r:
        items = draw(ctx, lens, vals=(0, 1))
        obj = ASyncIterable(Source(items))
        for _ in range(3):
            mode = ctx.pick(MODES, "mode=")
            partial = ctx.pick([False, True], "partial=")
            if partial:
                for x in obj:
                    ctx.check(x is items[0], "a new iteration does not start at the first item", "items")
                    break
                continue
            if mode == "anext+await":
                mode = "sync-for"
            got, exc = consume(ctx, r, obj, mode)
            ctx.check(exc is None and same(got, items), lambda: f"{mode} gives {got} {exc}", "items")
            if mode in ("await", "materialized"):
                got.append("changed by the consumer")


def shared(ctx, kind, n, clients, cancel):
    """concurrent awaiters of one object all get all items, the source is read once"""
    from a_sync import ASyncIterable, ASyncIterator

    with Run(ctx) as r:
        gates = []

        async def gate():
            f = r.loop.create_future()
            gates.append(f)
            await f

        items = [Item(i % 2, i) for i in range(n)]
        s = Source(items, gate=gate)
        obj = ASyncIterable(s) if kind == "iterable" else ASyncIterator(s.gen())
        want = items
        if kind == "filter":
            obj = obj.filter(lambda x: x.k == 1)
            want = items[1::2]
        if kind == "sort":
            async def key(x):
                await gate()
                return x.k
            obj = obj.sort(key=key, reverse=True)
            want = items[1::2] + items[::2]
        for i in range(clients):
            async def main(c):
                got = await obj
                ctx.log(c.name, got)
                ctx.check(same(got, want), lambda: f"{c.name} got {got}, not {want}", "items")
            c = r.client("AB"[i], main)
            if cancel:
                r.cancel_event(c)
        r.event("go", lambda: gates.pop(0).set_result(None), lambda: gates and not gates[0].done(), repeat=True)
        if kind == "sort":
            r.event("go-last", lambda: gates.pop().set_result(None), lambda: len(gates) > 1 and not gates[-1].done(), repeat=True)
        r.go()
        if kind == "iterable" and not cancel:
            ctx.check(s.passes <= 1, lambda: f"the source was iterated {s.passes} times", "passes")


def keys_concurrent(ctx, n, tier):
    """an async key: whatever the order in which the keys arrive, the result is sorted() with ties in source order"""
    from a_sync.iter import ASyncSorter

    with Run(ctx) as r:
        items = [Item(ctx.pick((0, 1), "k="), i) for i in range(n)]
        rev = ctx.pick((False, True), "rev=")
        src = ctx.pick(("list", "raw"), "src=")
        gates = {}

        async def key(x):
            gates[x.i] = r.loop.create_future()
            await gates[x.i]
            return x.k

        async def main(c):
            got = [x async for x in ASyncSorter(build(src, items), key=key, reverse=rev)]
            ctx.log(got)
            want = sorted(items, key=lambda x: x.k, reverse=rev)
            ctx.check(same(got, want), lambda: f"{items} sorted to {got}, not {want}", "items")

        c = r.client("C", main, auto=True)
        for i in range(n):
            r.event(f"key{i}", lambda i=i: gates[i].set_result(None), lambda i=i: i in gates and not gates[i].done())

        def quiescent():
            if not c.done:
                ctx.check(len(gates) == n, lambda: f"only {len(gates)} of {n} keys are being computed", "serial")
        r.loop.on_quiescent = quiescent
        r.go()


def bound(ctx, base, depth):
    """generator methods of several instances, kept, called later, across the 5 minutes of the cache"""
    from a_sync import ASyncGenericBase, ASyncIterator

    with Run(ctx) as r:
        class Plain:
            def __init__(self, name):
                self.name = name

            async def gen(self, n):
                for i in range(n):
                    yield (self.name, i)

        class Sub(Plain):
            async def gen(self, n):
                yield "sub"
                async for x in super().gen(n):
                    yield x

        if base:
            class Dual(ASyncGenericBase):
                def __init__(self, name):
                    self.name, self.sync = name, name == "a"
                    super().__init__()

                gen = Plain.gen

            class DualSub(Dual):
                async def gen(self, n):
                    yield "sub"
                    async for x in super().gen(n):
                        yield x
            classes = (Dual, DualSub)
        else:
            Plain.gen = ASyncIterator.wrap(Plain.gen)
            Sub.gen = ASyncIterator.wrap(Sub.gen)
            classes = (Plain, Sub)
        objs = {"a": classes[0]("a"), "b": classes[0]("b"), "s": classes[1]("s")}
        kept = {}
        for _ in range(depth):
            what = ctx.pick(["get-a", "get-b", "get-s", "call-a", "call-b", "call-s", "acall-a", "acall-s", "kept-a", "kept-s", "wait"], "do=")
            ctx.step()
            if what == "wait":
                r.run(asyncio.sleep(301))
                r.settle()
                continue
            verb, o = what.split("-")
            if verb == "get":
                kept[o] = objs[o].gen
                ctx.check(objs[o].gen.__self__ is objs[o], "bound to another instance", "self")
                continue
            f = kept.get(o) if verb == "kept" else objs[o].gen
            if f is None:
                continue
            want = (["sub"] if o == "s" else []) + [(o, 0), (o, 1)]
            if verb == "acall":
                async def main():
                    return [x async for x in objs[o].gen(2)]
                got = r.run(main())
            else:
                got = list(f(2))
            ctx.log(what, got)
            ctx.check(got == want, lambda: f"{what} gives {got}, not {want}", "items")
        for f in objs.values():
            ctx.check(list(f.gen(1))[-1] == (f.name, 0), "a generator method is broken for good", "items")
        r.run(asyncio.sleep(700))
        r._check_exc()


def rebound(ctx, base, depth):
    """one instance: its method through the instance, the class, super(), a copy; replaced on the instance and restored"""
    import copy

    from a_sync import ASyncGenericBase, ASyncIterator

    with Run(ctx) as r:
        if base:
            class Dual(ASyncGenericBase):
                def __init__(self, name):
                    self.name, self.sync = name, True
                    super().__init__()

                async def gen(self, n):
                    for i in range(n):
                        yield (self.name, i)
            cls = Dual
        else:
            class Plain:
                def __init__(self, name):
                    self.name = name

                @ASyncIterator.wrap
                async def gen(self, n):
                    for i in range(n):
                        yield (self.name, i)
            cls = Plain
        obj, other, dup, replaced, copies = cls("o"), cls("x"), None, False, 0

        async def one(*args):
            yield ("replaced", *args)

        for _ in range(depth):
            what = ctx.pick(["call", "acall", "class", "class-other", "copy", "dup", "set", "wait"] + (["del"] if replaced else []), "do=")
            ctx.step()
            if what == "wait":
                r.run(asyncio.sleep(301))
                r.settle()
                continue
            if what == "copy":
                if not replaced:
                    dup, copies = copy.copy(obj), copies + 1
                    dup.name = "copy"
                continue
            if what == "set":
                obj.gen, replaced = one, True
                continue
            if what == "del":
                del obj.gen
                replaced = False
                continue
            if what == "class-other":
                got, want = list(cls.gen(other, 2)), [("x", 0), ("x", 1)]
            elif what == "class":
                got, want = list(cls.gen(obj, 2)), [("o", 0), ("o", 1)]
            elif what == "dup":
                if dup is None:
                    continue
                got, want = list(dup.gen(2)), [("copy", 0), ("copy", 1)]
            else:
                async def main():
                    return [x async for x in obj.gen(2)]
                want = [("replaced", 2)] if replaced else [("o", 0), ("o", 1)]
                got = r.run(main()) if what == "acall" or replaced else list(obj.gen(2))
            ctx.check(got == want, f"{what}: yielded {got} instead of {want}", what)


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, fn, bound=0, **k):
        S.append(Scenario(name, functools.partial(fn, **k), bound))

    some = [("filter", 5, "sync"), ("filter", 6, "async"), ("sort", "half", "sync", False), ("sort", "half", "async", True), ("sort", "neg", "async", False)]
    for kind in KINDS:
        if kind not in NOT_CHAINED:
            add(f"plain-{kind}", views, kind=kind, lens=[0, 1, 2, 4], depth=0, tier=tier)
        add(f"view-{kind}", views, kind=kind, lens=[0, 1, 3] if q else [0, 1, 2, 3, 4], depth=1, tier=tier,
            fixed=None)
        add(f"chain-{kind}", views, kind=kind, lens=[0, 1, 2] if q else [0, 1, 2, 3, 4], depth=2, tier=tier, fixed=some)
        add(f"failing-{kind}", failing, kind=kind, lens=[0, 1, 2] if q else [0, 1, 2, 3], tier=tier)
        add(f"guard-{kind}", guard, kind=kind, lens=[0, 1, 2] if q else [0, 1, 2, 3, 4])
        if kind in ("iterator", "stepper", "genfunc", "method") or not q and kind == "base":
            add(f"history-{kind}", history, kind=kind, n=4, depth=3 if q else 4)
    for kind in ("wrap-iterable", "wrap-iterator"):
        add(f"plain-{kind}", views, kind=kind, lens=[0, 1, 3], depth=0, tier=tier)
        add(f"view-{kind}", views, kind=kind, lens=[0, 1, 3], depth=1, tier=tier, fixed=some)
        add(f"failing-{kind}", failing, kind=kind, lens=[0, 1, 2], tier=tier)
        add(f"guard-{kind}", guard, kind=kind, lens=[0, 1, 2])
    for kind in FALSY:
        add(f"view-{kind}", views, kind=kind, lens=[0, 1, 3], depth=1, tier=tier, fixed=some)
        add(f"failing-{kind}", failing, kind=kind, lens=[0, 1, 2], tier=tier)
        add(f"guard-{kind}", guard, kind=kind, lens=[0, 1, 2])
    add("plain-falsy", views, kind="falsy", lens=[0, 1, 2, 4], depth=0, tier=tier)
    if not q:
        add("chain-all", views, kind="iterable", lens=[3], depth=2, tier=tier)
        add("chain3", views, kind="iterable", lens=[3], depth=3, tier=tier, fixed=some)
    add("again", again, lens=[1, 2])
    for kind in ("iterable", "iterator", "filter", "sort"):
        add(f"shared-{kind}", shared, 2 if q else 4, kind=kind, n=3, clients=2, cancel=False)
    add("shared-cancel", shared, 2 if q else 3, kind="iterable", n=2, clients=2, cancel=True)
    add("keys", keys_concurrent, 1, n=3 if q else 4, tier=tier)
    add("bound-plain", bound, base=False, depth=3 if q else 4)
    add("bound-base", bound, base=True, depth=3 if q else 4)
    add("rebound-plain", rebound, base=False, depth=4 if q else 6)
    add("rebound-base", rebound, base=True, depth=4 if q else 6)
    return S
