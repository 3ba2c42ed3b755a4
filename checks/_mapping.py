"""A closed system around a TaskMapping: gated sources of keys, a gated function, consumers."""
import asyncio
import functools

from mc.loop import Run


class Boom(Exception):
    pass


class TypeBoom(Boom, TypeError):
    pass


class Src(Exception):
    pass


class Falsy:
    """an async iterable that is falsy as long as nothing was taken out of it"""

    def __init__(self, agen):
        self.agen, self.n = agen, 0

    def __len__(self):
        return self.n

    def __aiter__(self):
        return self

    async def __anext__(self):
        x = await self.agen.__anext__()
        self.n += 1
        return x


def wrapped(fn, kind):
    """the same coroutine function as another kind of callable"""
    if kind == "partial":
        return functools.partial(fn, extra=1)
    if kind == "method":
        class Owner:
            async def method(self, k):
                return await fn(k)
        return Owner().method

    class Callable:
        async def __call__(self, k):
            return await fn(k)

    class Unhashable(Callable):
        def __eq__(self, other):
            return self is other

    class Slots:
        __slots__ = ("x",)

        async def __call__(self, k):
            return await fn(k)
    return {"object": Callable, "unhashable": Unhashable, "slots": Slots}[kind]()


class System:
    def __init__(self, ctx, r, keys, fail=(), gated=True, value=None):
        self.ctx, self.r, self.fail, self.gated = ctx, r, set(fail), gated
        self.value, self.boom = value or (lambda k: k * 10), Boom
        self.kind = None
        self.calls, self.running, self.gates, self.finished = [], [], {}, []
        self.produced, self.src_gates, self.src_ended = [], {}, []
        self.max_running = 0
        self.awaiting = set()
        for k in keys:
            r.event(f"finish{k}", lambda k=k: self.gates[k].set_result(None),
                    lambda k=k: k in self.gates and not self.gates[k].done(), repeat=True)

    async def fn(self, k, **kw):
        self.calls.append(k)
        self.running.append(k)
        self.max_running = max(self.max_running, len(self.running))
        self.ctx.log("call", k)
        try:
            if self.gated:
                self.gates[k] = self.r.loop.create_future()
                await self.gates[k]
            if k in self.fail:
                raise self.boom(k)
            return self.value(k)
        finally:
            self.running.remove(k)
            self.finished.append(k)
            self.gates.pop(k, None)

    def source(self, name, keys, style, end="ok"):
        """style: list, gen (sync generator), agen (gated), agen-now, awaitable (gated), awaitable-agen"""
        if style == "list":
            return list(keys)
        if style == "dict":
            return dict.fromkeys(keys)
        if style == "gen":
            def gen():
                yield from keys
            return gen()
        if style.startswith("agen"):
            return self.agen(name, keys, style == "agen", end)

        if style == "falsy":
            return Falsy(self.agen(name, keys, True, end))
        if style == "keysof":
            from a_sync import TaskMapping

            async def other(k):
                return "other"
            self.other = TaskMapping(other, self.agen(name, keys, True, end))
            return self.other.keys()

        async def aw():
            await self.gate(name)
            return self.agen(name, keys, False, end) if style == "awaitable-agen" else list(keys)
        return aw()

    async def gate(self, name):
        if name not in self.src_gates:
            self.src_gates[name] = None
            self.r.event(f"feed-{name}", lambda: self.src_gates[name].set_result(None),
                         lambda: self.src_gates[name] is not None and not self.src_gates[name].done(), repeat=True)
        self.src_gates[name] = self.r.loop.create_future()
        try:
            await self.src_gates[name]
        finally:
            self.src_gates[name] = None

    async def agen(self, name, keys, gated, end):
        for k in keys:
            if gated:
                await self.gate(name)
            self.produced.append(k)
            self.ctx.log("produce", k)
            yield k
        if gated:
            await self.gate(name)
        self.src_ended.append(name)
        if end == "exc":
            raise Src(name)
        if end == "cut":
            # what it waits for was cancelled by somebody: nobody cancelled those who use the source
            raise asyncio.CancelledError(name)

    def feeding(self):
        return any(f is not None and not f.done() for f in self.src_gates.values())


def idle(r):
    """tasks of the run that are neither clients nor done"""
    mine = {c.task for c in r.clients}
    return [t for t in asyncio.all_tasks(r.loop) if not t.done() and t not in mine]
