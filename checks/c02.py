"""C02: dual-mode classes — every method, property and generator of every instance runs the right function once, on that instance, in the
mode that the call's flag, the member's default and the instance's flag ask for, whatever was used before."""
import asyncio
import copy
import functools
import gc
import inspect

from mc.explore import Scenario
from checks.c01 import World, attempt, Boom

ASSUMPTIONS = ["two classes (one inherits), up to three instances; real asyncio event loops; the library's default thread pool runs "
               "the sync functions of asynchronous calls"]

class Rt(NotImplementedError):
    """a RuntimeError of the program's own"""


ERR = {"exc": Boom, "rt": Rt, "type": TypeError, "attr": AttributeError}
TAGS = ["m", "am", "dm", "dm_s", "dm_a", "sm_s", "sm_a", "p", "sp", "p_s", "p_a", "cp"]
ALIASES = ["al", "dal", "alp", "alcp"]  # members whose functions are called like other members
KNOWN = "sync-method-of-async-instance"


def build(ctx, calls, source, flag, value, outcome):
    """-> function that makes an instance with `sync=value` in the wanted way"""
    import a_sync
    from a_sync import ASyncGenericBase

    v = value if flag == "sync" else not value

    def work(tag, cls, self, a, b):
        calls.append((tag, cls, self.name, a, b))
        if outcome in ERR:
            raise ERR[outcome](tag)
        return (tag, cls, self.name, a, b) if outcome == "ok" else None

    def members(cls, sup):
        ns = {}

        def am(tag):
            async def f(self, a=0, b=2):
                await asyncio.sleep(0)
                return work(tag, cls, self, a, b)
            f.__name__ = tag
            return f

        def sm(tag):
            def f(self, a=0, b=2):
                return work(tag, cls, self, a, b)
            f.__name__ = tag
            return f

        async def g(self, a=0, b=2):
            for i in range(2):
                yield work("g", cls, self, a + i, b)
        ns["x__y"] = sm("x__y")
        ns["dm"] = a_sync.a_sync(am("dm"))
        ns["dm_s"] = a_sync.a_sync("sync")(am("dm_s"))
        ns["dm_a"] = a_sync.a_sync("async")(am("dm_a"))
        ns["sm_s"] = a_sync.a_sync("sync")(sm("sm_s"))
        ns["sm_a"] = a_sync.a_sync("async")(sm("sm_a"))
        ns["g"] = g
        ns["_private"] = sm("_private")
        for tag, deco, f in (("p", a_sync.aka.property, am), ("sp", a_sync.aka.property, sm), ("p_s", a_sync.aka.property("sync"), am),
                             ("p_a", a_sync.aka.property("async"), am), ("cp", a_sync.aka.cached_property, am)):
            ns[tag] = deco(f(tag))
        def renamed(f, name):
            f.__name__ = name
            return f
        ns["al"] = renamed(am("al"), "m")
        ns["dal"] = a_sync.a_sync(renamed(am("dal"), "dm_s"))
        ns["alp"] = a_sync.aka.property(renamed(am("alp"), "p"))
        ns["alcp"] = a_sync.aka.cached_property(renamed(am("alcp"), "cp"))

        async def g2(self, a=0, b=2):
            yield work("g2", cls, self, a, b)
        ns["g2"] = renamed(g2, "g")
        ns["am"] = am("am")  # those without modifiers of their own come after those with
        ns["m"] = sm("m")
        return ns

    if source in ("init", "init-default", "init-pos", "child-init"):
        env = {}
        exec(f"def __init__(self, name, {flag}{'=DEF' if source != 'init-pos' else ''}):\n"
             f"    self.{flag} = {flag}; self.name = name; BASE.__init__(self)", {"DEF": v if source == "init-default" else not v, "BASE": ASyncGenericBase}, env)
        body = {"__init__": env["__init__"]}
    else:
        def __init__(self, name):
            if source in ("attr", "child-attr"):
                setattr(self, flag, v)
            self.name = name
            ASyncGenericBase.__init__(self)
        body = {"__init__": __init__}
    if source in ("class", "child-class"):
        body[flag] = v
    elif source == "override":
        body[flag] = not v
    Parent = type(ASyncGenericBase)("Parent", (ASyncGenericBase,), {**body, **members("Parent", None)})
    sub = {}
    if source == "override":
        sub[flag] = v

    # the child overrides some members; its own versions reach the parent's with super()
    async def am(self, a=0, b=2):
        calls.append(("am", "Child", self.name, a, b))
        return await super(Child, self).am(a, b, sync=False)

    def m(self, a=0, b=2):
        calls.append(("m", "Child", self.name, a, b))
        return super(Child, self).m(a, b, sync=True)

    async def p(self):
        calls.append(("p", "Child", self.name, 0, 2))
        return await super(Child, self).__p__()

    async def cp(self):
        calls.append(("cp", "Child", self.name, 0, 2))
        return await super(Child, self).__cp__()
    sub.update(am=am, m=m)
    if not source.endswith("-nosuper"):
        sub.update(p=a_sync.aka.property(p), cp=a_sync.aka.cached_property(cp))
    Child = type(ASyncGenericBase)("Child", (Parent,), sub)

    def make(name, which="Parent", val=value):
        cls = Parent if which == "Parent" else Child
        x = val if flag == "sync" else not val
        if source in ("init", "child-init"):
            return cls(name, **{flag: x})
        if source == "init-pos":
            return cls(name, x)
        return cls(name)
    return Parent, Child, make


def want_mode(tag, value, fl, hidden=False):
    if "sync" in fl:
        return "sync" if fl["sync"] else "async"
    if "asynchronous" in fl:
        return "async" if fl["asynchronous"] else "sync"
    if hidden or tag.endswith("_a"):
        return "async"
    if tag.endswith("_s"):
        return "sync"
    return "sync" if value else "async"


def is_prop(tag):
    return tag in ("p", "sp", "p_s", "p_a", "cp", "alp", "alcp")


def use(ctx, w, calls, inst, which, tag, value, fl, where, outcome, hidden=False, cached=None, args=((1,), {"b": 3})):
    """one access, checked"""
    from a_sync import exceptions as X

    calls.clear()
    if is_prop(tag):
        thunk = (lambda: getattr(inst, f"__{tag}__")(**dict(fl))) if hidden else (lambda: getattr(inst, tag))
        a, b = 0, 2
    else:
        thunk = lambda: getattr(inst, tag)(*args[0], **args[1], **dict(fl))
        a, b = 1, 3
    mode, (how, v) = attempt(w, where, thunk)
    ctx.log(tag, which, mode, how, v if how == "value" else type(v).__name__)
    desc = f"{which}.{tag}{' (hidden)' if hidden else ''} of an instance with sync={value}, flags {fl}, {where}"
    if len(fl) > 1:
        ctx.check(how == "exc" and isinstance(v, X.TooManyFlags) and not calls, lambda: f"{desc}: {how} {v!r}", "flags")
        return
    want = want_mode(tag, value, fl, hidden)
    if want == "async" and tag == "m" and not fl and mode == "sync":
        ctx.check(False, lambda: f"{desc}: a sync method of an asynchronous instance runs synchronously", KNOWN)
    runs_sync_def = tag in ("m", "sm_s", "sm_a")  # needs no event loop in sync mode
    if want == "sync" and where == "loop" and not runs_sync_def:
        ctx.check(mode == "sync" and how == "exc" and isinstance(v, X.SyncModeInAsyncContextError) and not calls,
                  lambda: f"{desc}: a sync use inside a running loop: {mode} {how} {v!r}, calls {calls}", "refused")
        return
    ctx.check(mode == want, lambda: f"{desc}: {mode} instead of {want} ({how} {v!r})", "mode")
    chain = ["Child", "Parent"] if which == "Child" and tag in ("am", "m", "p", "cp") else ["Parent"]
    exp = [(tag, c, inst.name, a, b) for c in chain]
    if cached is not None and tag in ("cp", "alcp") and (id(inst), tag) in cached:
        exp = []
    ctx.check(calls == exp, lambda: f"{desc}: calls {calls} instead of {exp}", "calls")
    if outcome in ERR:
        ctx.check(how == "exc" and type(v) is ERR[outcome] and v.args[0] == tag, lambda: f"{desc}: {how} {v!r}", "exception")
    else:
        r = (tag, "Parent", inst.name, a, b) if outcome == "ok" else None
        ctx.check(how == "value" and v == r, lambda: f"{desc}: {how} {v!r}", "value")
        if cached is not None and tag in ("cp", "alcp"):
            cached.add((id(inst), tag))


FLAGS = [{}, {"sync": True}, {"sync": False}, {"asynchronous": True}, {"asynchronous": False}, {"sync": True, "asynchronous": True}]


def member(ctx, source, tags):
    """every way to give the flag x every member x every call flag x context"""
    flag = ctx.pick(["sync", "asynchronous"], "flag=")
    value = ctx.pick([True, False], "value=")
    tag = ctx.pick(tags, "member=")
    where = ctx.pick(["plain", "loop", "thread"], "in=")
    which = ctx.pick(["Parent", "Child"], "class=")
    outcome = ctx.pick(["ok", "exc", "none"] + ["rt", "type", "attr"] * (which == "Parent"), "outcome=")
    hidden = is_prop(tag) and ctx.pick([False, True], "hidden=")
    fl = {} if is_prop(tag) and not hidden else ctx.pick(FLAGS, "flags=")
    calls = []
    Parent, Child, make = build(ctx, calls, source, flag, value, outcome)
    if source == "override" and which == "Parent":
        value = not value
    with World() as w:
        inst = make("i", which)
        for i in range(2):
            use(ctx, w, calls, inst, which, tag, value, fl, where, outcome, hidden, set() if i == 0 or outcome in ERR else {(id(inst), "cp"), (id(inst), "alcp")})


def gens(ctx, source):
    """generator methods and what starts with an underscore"""
    from a_sync import ASyncIterator

    flag = ctx.pick(["sync", "asynchronous"], "flag=")
    value = ctx.pick([True, False], "value=")
    which = ctx.pick(["Parent", "Child"], "class=")
    how = [ctx.pick(["for", "async for"], "how=") for _ in range(2)]
    outcome = ctx.pick(["ok", "exc"], "outcome=")
    calls = []
    Parent, Child, make = build(ctx, calls, source, flag, value, outcome)
    with World() as w:
        insts = [make("i", which), make("j", "Parent")]
        for inst, h in zip(insts, how):
            calls.clear()
            it = inst.g(1, b=3)
            ctx.check(isinstance(it, ASyncIterator), f"{it!r}", "type")
            out, exc = [], None
            try:
                if h == "for":
                    for x in it:
                        out.append(x)
                else:
                    async def main():
                        async for x in it:
                            out.append(x)
                    w.loop.run_until_complete(main())
            except Boom as e:
                exc = e
            exp = [("g", "Parent", inst.name, 1 + i, 3) for i in range(2)]
            ctx.log(h, len(out), type(exc).__name__)
            if outcome == "ok":
                ctx.check(out == exp and calls == exp and exc is None, lambda: f"items {out}, calls {calls}, {exc!r}", "items")
            else:
                ctx.check(out == [] and calls == exp[:1] and exc is not None, lambda: f"items {out}, calls {calls}, {exc!r}", "items")
            calls.clear()
            if outcome == "ok":
                for t in ("_private", "x__y"):
                    r = getattr(inst, t)(5)
                    ctx.check(r == (t, "Parent", inst.name, 5, 2), lambda: f"{t}: {r!r}", "private")
                r = list(inst.g2(3))
                ctx.check(r == [("g2", "Parent", inst.name, 3, 2)], lambda: f"g2: {r!r}", "alias")


def use_gen(ctx, w, calls, inst, sync):
    calls.clear()
    it = inst.g(1, b=3)
    if sync:
        out = list(it)
    else:
        async def main():
            return [x async for x in it]
        out = w.loop.run_until_complete(main())
    exp = [("g", "Parent", inst.name, 1 + i, 3) for i in range(2)]
    ctx.log("gen", inst.name[:1], len(out))
    ctx.check(out == exp and calls == exp, lambda: f"generator of {inst.name}: items {out}, calls {calls}", "items")


def ops(ctx, depth, tags, insts):
    """every sequence of uses of members of several instances, with copies and instances that die"""
    calls = []
    Parent, Child, make = build(ctx, calls, "init", "sync", True, "ok")
    live = {}
    cached = set()
    made = [0]
    gc.disable()
    try:
        with World() as w:
            def new(n):
                made[0] += 1
                which = "Child" if n == "c" else "Parent"
                live[n] = (make(f"{n}{made[0]}", which, n != "b"), which, n != "b")
            for n in insts:
                new(n)
            for i in range(depth):
                acts = [f"{n}.{t}" for n in live for t in tags] + [f"new {n}" for n in insts] + (["copy a"] if "d" not in live else [])
                act = ctx.pick(acts if i < depth - 1 else [x for x in acts if "." in x], "op=")
                if act.startswith("new"):
                    n = act[4:]
                    cached -= {k for k in cached if k[0] == id(live[n][0])}
                    ctx.log("new")
                    live.pop(n)
                    new(n)
                elif act == "copy a":
                    o, which, value = live["a"]
                    c = copy.copy(o)
                    c.name = "copy"
                    live["d"] = (c, which, value)
                    for p in ("cp", "alcp"):
                        if (id(o), p) in cached:
                            cached.add((id(c), p))
                    ctx.log("copied")
                else:
                    n, t = act.split(".")
                    o, which, value = live[n]
                    if t in ("cp", "alcp") and n == "d" and (id(o), t) in cached:
                        continue  # whether a copy shares the value is not specified
                    if t == "g":
                        use_gen(ctx, w, calls, o, i % 2 == 0)
                        continue
                    hidden = t == "p" and i % 2 == 1
                    if t == "m" and not value:
                        use(ctx, w, calls, o, which, t, value, {"sync": False}, "plain", "ok", hidden, cached)
                    else:
                        use(ctx, w, calls, o, which, t, value, {}, "plain", "ok", hidden, cached)
    finally:
        gc.enable()


def invalid(ctx):
    """instances whose flag is missing, ambiguous or no bool, or that were not initialized; members can not be set or deleted"""
    import a_sync
    from a_sync import ASyncGenericBase
    from a_sync import exceptions as X

    case = ctx.pick(["none", "two", "two-args", "not-bool", "not-bool-attr", "no-init", "base", "set", "delete"], "case=")
    tag = ctx.pick(["am", "m", "p"], "member=")
    ns = {}
    exec({
        "none": "class C(B):\n  def __init__(self): B.__init__(self)",
        "two": "class C(B):\n  sync = True\n  asynchronous = True\n  def __init__(self): B.__init__(self)",
        "two-args": "class C(B):\n  def __init__(self, sync=True, asynchronous=False): self.sync = sync; self.asynchronous = asynchronous; B.__init__(self)",
        "not-bool": "class C(B):\n  sync = 'yes'\n  def __init__(self): B.__init__(self)",
        "not-bool-attr": "class C(B):\n  def __init__(self): self.asynchronous = 1; B.__init__(self)",
        "no-init": "class C(B):\n  sync = True\n  def __init__(self): pass",
        "base": "C = B",
        "set": "class C(B):\n  sync = True\n  def __init__(self): B.__init__(self)",
        "delete": "class C(B):\n  sync = True\n  def __init__(self): B.__init__(self)",
    }[case] + ("" if case == "base" else """
  async def am(self): ran.append(1)
  def m(self): ran.append(1)
  @prop
  async def p(self): ran.append(1)
"""), {"B": ASyncGenericBase, "prop": a_sync.aka.property, "ran": (ran := [])}, ns)
    C = ns["C"]
    want = {"none": X.NoFlagsFound, "two": X.TooManyFlags, "two-args": X.TooManyFlags, "not-bool": X.InvalidFlagValue,
            "not-bool-attr": X.InvalidFlagValue, "no-init": RuntimeError, "base": NotImplementedError, "set": RuntimeError, "delete": RuntimeError}[case]
    with World():
        r = exc = None
        try:
            c = C()
            if case == "set":
                c.m = 1
            elif case == "delete":
                del c.m
            else:
                r = getattr(c, tag)
                if tag != "p":
                    r = r()
        except Exception as e:
            exc = e
        ctx.log(case, tag, type(exc).__name__)
        if inspect.iscoroutine(r):
            r.close()
        ctx.check(isinstance(exc, want) and not ran, lambda: f"{case}: {tag}: {exc!r} / {r!r} instead of {want.__name__}", "validation")


def refused(ctx):
    """members that can not be dual-mode are refused when their class is defined"""
    import a_sync
    from a_sync import ASyncGenericBase

    kind = ctx.pick(["async def", "def"], "kind=")
    args = ctx.pick(["", ", a", ", sync", ", a, sync=False", ", asynchronous", ", *, asynchronous=True", ", *, sync", ", a=1, *, k=2"], "args=")
    deco = ctx.pick(["", "@a_sync", "@a_sync('sync')", "@a_sync(default='async')", "@prop", "@cprop"], "decorated=")
    if "prop" in deco and args:
        return
    src = f"class C(B):\n  def __init__(self): self.sync = True; B.__init__(self)\n  {deco}\n  {kind} f(self{args}): return 1"
    for i in range(2):
        exc = None
        try:
            exec(src, {"B": ASyncGenericBase, "a_sync": a_sync.a_sync, "prop": a_sync.aka.property, "cprop": a_sync.aka.cached_property})
        except Exception as e:
            exc = e
        ctx.log(type(exc).__name__)
        bad = "sync" in args
        ctx.check(isinstance(exc, RuntimeError) if bad else exc is None, lambda: f"{src}: {exc!r}", "validation")


def maps(ctx, what):
    """Cls.method.map(instances), Cls.prop.map(instances), inst.method.map(args) and their aggregates"""
    calls = []
    Parent, Child, make = build(ctx, calls, "init", "sync", True, "ok")
    agg = ctx.pick(["map", "any", "all", "min", "max", "sum"], "aggregate=")
    n = ctx.pick([1, 2, 3], "n=")
    vals = [ctx.pick([0, 1, 2], "v=") for _ in range(n)]
    value = ctx.pick([True, False], "value=")
    import a_sync
    from a_sync import ASyncGenericBase

    seen = []

    class K(ASyncGenericBase):
        def __init__(self, i, sync):
            self.i = i
            self.sync = sync
            ASyncGenericBase.__init__(self)

        async def am(self, off=0):
            seen.append(self.i)
            return vals[self.i] + off

        async def key(self, j, off=0):
            seen.append(j)
            return vals[j] + off

        @a_sync.aka.property
        async def p(self):
            seen.append(self.i)
            return vals[self.i]

        @a_sync.aka.cached_property
        async def cp(self):
            seen.append(self.i)
            return vals[self.i]

    with World() as w:
        insts = [K(i, value) for i in range(n)]
        async def main():
            kw = {}
            if what == "key":
                on, its = insts[0].key, list(range(n))
            else:
                on, its = getattr(K, what), insts
            r = getattr(on, agg)(its, **kw) if agg == "map" or what == "key" else getattr(on, agg)(its, sync=False)
            return dict(await r) if agg == "map" else await r
        res = w.loop.run_until_complete(asyncio.wait_for(main(), 60))
        if agg == "map":
            res = {k if what == "key" else k.i: v for k, v in res.items()}
        want = dict(enumerate(vals)) if agg == "map" else {"any": any, "all": all, "min": min, "max": max, "sum": sum}[agg](vals)
        ctx.log(res)
        ctx.check(res == want, lambda: f"{agg} of {vals}: {res}", "value")
        ctx.check(len(set(seen)) == len(seen) and (len(seen) == n or agg in ("any", "all")), lambda: f"calls {seen}", "calls")


def temporary(ctx):
    """a method of an instance that only the expression holds"""
    calls = []
    value = ctx.pick([True, False], "value=")
    tag = ctx.pick(["am", "m", "dm_s", "p", "g"], "member=")
    Parent, Child, make = build(ctx, calls, "init", "sync", value, "ok")
    with World() as w:
        def thunk():
            if tag == "p":
                return make("t", "Parent").p
            if tag == "g":
                return list(make("t", "Parent").g())
            return getattr(make("t", "Parent"), tag)(sync=True)
        mode, (how, v) = attempt(w, "plain", thunk)
        ctx.log(tag, how)
        if how == "exc" and isinstance(v, ReferenceError):
            ctx.fail(f"{tag} of a temporary instance: ReferenceError", "temporary-instance")
        ctx.check(how == "value" and calls, lambda: f"{tag} of a temporary instance: {how} {v!r}", "temporary")


def scenarios(tier):
    q = tier == "quick"
    S = []

    def add(name, fn, **k):
        S.append(Scenario(name, functools.partial(fn, **k), 0))

    for source in ("init", "init-default", "init-pos", "class", "child-init", "attr", "override"):
        add(f"member-{source}", member, source=source, tags=TAGS)
        add(f"generator-{source}", gens, source=source)
    add("ops-methods", ops, depth=3 if q else 4, tags=["am", "m", "dm_a"], insts=["a", "b", "c"])
    add("ops-properties", ops, depth=3 if q else 4, tags=["p", "cp", "am"], insts=["a", "c"])
    add("ops-one", ops, depth=4 if q else 5, tags=["am", "p"], insts=["a"])
    add("ops-generator", ops, depth=4 if q else 5, tags=["g", "am"], insts=["a"])
    add("invalid", invalid)
    add("refused", refused)
    add("member-aliases", member, source="init", tags=ALIASES)
    add("ops-aliases", ops, depth=3 if q else 4, tags=["al", "m"] + ["alcp", "cp"], insts=["a"])
    add("temporary", temporary)
    for what in ("am", "p", "cp", "key"):
        add(f"maps-{what}", maps, what=what)
    return S
