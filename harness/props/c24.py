"""C24 the memory cache modifier."""
import asyncio, threading
from concurrent.futures import Future
from ..common import *
from ..threads import in_thread

MONITOR = "MemoMon"
MUST_SEE = ["call", "body", "end", "res", "cancel", "adv", "quiet"]
ASSUMPTIONS = ["async_lru behaves as released", "arguments are hashable", "calls come from one event loop at a time and run asynchronously, or are synchronous calls of async-defined functions without ttl",
               "a function does not raise CancelledError by itself (known finding)", "failures are generated for unbounded caches only", "executions that a bounded cache with ttl evicts are not in flight"]


def spec(tier):
    th = tier == "thorough"
    base = dict(Insts={1, 2}, Args={1, 2, 4, 5, 6}, Maxes={0, 1, 2}, Ttls={0, 10}, Defs={"async", "sync"}, Kinds={"fn", "meth", "prop"}, MaxK=4, MaxLen=99, MinEmit=99, W=1, MoveToEnd=True)
    inv = ["NoClauseViolated"]
    return dict(
        models=[dict(module="MemoModel", constants=dict(base, Insts={1}, Args={1, 2, 6}, Defs={"async"}, Kinds={"fn"}, MaxK=4, MaxLen=8 if th else 7), invariants=inv, view="View", workers=4),
                dict(module="MemoModel", constants=dict(base, Insts={1}, Args={1, 6, 7}, Defs={"async"}, Kinds={"fn"}, Maxes={2}, Ttls={0}, MaxLen=9, MaxK=6, MoveToEnd=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="MemoModel", mode="all", constants=dict(base, Insts={1}, Args={1, 2}, Kinds={"fn"}, MaxK=3, MaxLen=5), cap=20000 if th else 2000),
              dict(module="MemoModel", mode="sim", constants=dict(base, Insts={1}, Kinds={"fn"}, Args={1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, Maxes={0}, MaxK=25, MinEmit=40, W=8), num=6000 if th else 900, depth=41),
              dict(module="MemoModel", mode="sim", constants=dict(base, Insts={1}, Kinds={"fn"}, Args={1, 2, 4, 6, 7}, Maxes={1, 2, 3}, MaxK=25, MinEmit=40, W=4), num=6000 if th else 900, depth=41),
              dict(module="MemoModel", mode="sim", constants=dict(base, Args={1, 2, 6, 7}, Kinds={"meth", "prop"}, MaxK=25, MinEmit=40, W=4), num=6000 if th else 900, depth=41)])


def extra_scripts(tier, rng):
    """The two defects that are recorded in known-findings.txt."""
    c = {"max": 0, "ttl": 0, "typed": False, "def": "async", "kind": "fn"}
    call = {"op": "call", "i": 1, "a": 1}
    return [[dict(c, ttl=10, persist=True), {"op": "pcall"}, {"op": "padv"}, {"op": "pcall"}],
            [c, call, {"op": "settle"}, {"op": "end", "w": 1, "o": "C"}, {"op": "settle"}, call, {"op": "settle"}]]


SHAPES = {1: ((1, "x"), {}), 2: ((1.0, "x"), {}), 3: ((True, "x"), {}), 4: (("y",), {"b": 0}), 5: (("y",), {"b": False}), 6: ((None,), {}), 7: (((1, 2),), {}),
          8: ((), {"a": 1, "b": 2}), 9: ((), {}), 10: ((0,), {}), 11: (("",), {}), 12: ((), {"fn": 1, "maxsize": 2})}
NAMES = {enc((a, sorted(k.items()))): n for n, (a, k) in SHAPES.items()}


class Gate:
    """An executor that runs a submitted function when the driver says so, in the same thread."""

    def __init__(self, L):
        self.L = L

    def submit(self, fn, /, *a, **kw):
        f = Future()
        L = self.L
        n = L.begin(a, kw)

        def go(o):
            L.now = (n, o)
            try:
                r = fn(*a, **kw)
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(r)
            finally:
                L.now = None
        L.live[n] = go
        return f


class Loads:
    def __init__(self, cfg, ev, style, loop):
        self.cfg, self.ev, self.style, self.loop = cfg, ev, style, loop
        self.n, self.live, self.keys, self.now, self.told, self.over = 0, {}, {}, None, set(), False

    def ident(self, a, kw):
        i = 1
        if self.cfg["kind"] != "fn":
            i, a = a[0].ident, a[1:]
        x = 0 if self.cfg["kind"] == "prop" else NAMES.get(enc((a, sorted(kw.items()))), "?")
        return i, x

    def key(self, i, x):
        if self.cfg["kind"] != "prop" and not self.cfg["typed"]:
            x = 1 if x in (1, 2, 3) else 4 if x in (4, 5) else x
        return "%s/%s" % (i, x)

    def begin(self, a, kw):
        self.n += 1
        i, x = self.ident(a, kw)
        self.keys[self.n] = self.key(i, x)
        self.ev.append({"op": "body", "n": self.n, "key": self.key(i, x), "args": "%s/%s" % (i, x)})
        return self.n

    def end(self, n, o, asked=True):
        self.live.pop(n, None)
        e = {"op": "end", "n": n, "good": o == "=", "asked": asked}
        if o == "=":
            v = [n, (n, "v"), None, "s%d" % n, 0, [n], False, {"n": n}][(self.style + n) % 8]
            self.ev.append(dict(e, o="=" + enc(v)))
            return v
        if o == "C":
            self.ev.append(dict(e, o="!cancelled"))
            raise asyncio.CancelledError
        x = type("Err%d" % n, ((ValueError, KeyError, Exception, RuntimeError)[n % 4],), {})()
        self.ev.append(dict(e, o="!" + enc(x)))
        raise x


def build(cfg, style, L, instant):
    import a_sync
    from a_sync import a_sync as deco
    from a_sync.aliases import property as prop
    opts = {}
    if cfg["max"]:
        opts["ram_cache_maxsize"] = cfg["max"]
    elif style % 3:
        opts["ram_cache_maxsize"] = [None, -1][style % 2]
    if cfg["ttl"]:
        opts["ram_cache_ttl"] = cfg["ttl"]
    if cfg["typed"] or style % 5 == 0:
        opts["cache_typed"] = cfg["typed"]
    if not (cfg["max"] or cfg["ttl"] or cfg["typed"]) or style % 2:
        opts["cache_type"] = "memory"
    if cfg["def"] == "sync":
        opts["executor"] = Gate(L)

        def f(*a, **kw):
            n, o = L.now
            return L.end(n, o)
    else:
        async def f(*a, **kw):
            n = L.begin(a, kw)
            o = instant()
            if o is None:
                g = L.live[n] = L.loop.create_future()
                try:
                    o = await g
                except asyncio.CancelledError:
                    return L.end(n, "C", n in L.told)
            return L.end(n, o)
    if cfg["kind"] == "fn":
        if style % 4 == 0 and cfg["def"] == "async":
            return deco(f, **opts)
        return [deco("async", **opts), deco(default="async", **opts), deco(default="sync" if cfg["def"] == "async" else "async", **opts)][style % 3](f)
    ns = {}
    if cfg["kind"] == "prop":
        def p(self): ...
        if cfg["def"] == "sync":
            def p(self):
                return f(self)
        else:
            async def p(self):
                return await f(self)
        ns["p"] = prop(**opts)(p) if style % 2 else prop(p, **opts)
    else:
        if cfg["def"] == "sync":
            def m(self, *a, **kw):
                return f(self, *a, **kw)
        else:
            async def m(self, *a, **kw):
                return await f(self, *a, **kw)
        if style % 3 == 0:          # modifiers of the class
            ns.update(opts)
            ns["m"] = m
        else:
            ns["m"] = deco(default="async", **opts)(m) if style % 3 == 1 else deco("async", **opts)(m)

    def __init__(self, ident):
        a_sync.ASyncGenericBase.__init__(self)
        self.ident = ident
    ns["__init__"] = __init__
    ns["sync"] = False
    C = type("Cls", (a_sync.ASyncGenericBase,), ns)
    return {1: C(1), 2: C(2)}


def persist(cfg, style, ev):
    """Synchronous calls in a thread that keeps its event loop."""
    def go():
        loop = VLoop()
        asyncio.set_event_loop(loop)
        try:
            L = Loads(cfg, ev, style, loop)
            f = build(cfg, style, L, lambda: "=")
            for k in (1, 2):
                ev.append({"op": "call", "k": k, "key": "1/1", "args": "1/1"})
                ev.append({"op": "res", "k": k, "o": "=" + enc(f(*SHAPES[1][0], sync=True))})
                ev.append({"op": "quiet"})
                if k == 1:
                    loop.advance(16)
                    ev.append({"op": "adv", "t": 16})
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return cfg, ev


def drive(script):
    cfg, ops = script[0], script[1:]
    style = shash(script)
    ev = []
    if cfg.get("persist"):
        return persist(cfg, style, ev)

    async def main(loop):
        L = Loads(cfg, ev, style, loop)
        now = []
        once = cfg["ttl"] and cfg["max"]
        f = build(cfg, style, L, lambda: now[0] if now else None)
        tasks, started, res, k = {}, [], set(), 0

        def shape(o):
            x = 0 if cfg["kind"] == "prop" else o["a"]
            return L.key(o["i"], x), "%s/%s" % (o["i"], x), SHAPES[o["a"]]

        def made(o, q, flag):
            a, kw = shape(o)[2]
            if cfg["kind"] == "fn":
                return f(*a, **kw, **flag)
            me = f[o["i"]]
            if cfg["kind"] == "meth":
                # (an undecorated sync method called without a flag: see the finding of C21)
                return me.m(*a, **kw, **(flag if cfg["def"] == "sync" and style % 3 == 0 or flag.get("sync", 0) or flag.get("asynchronous") is False or (style + q) % 2 else {}))
            return me.__p__(**flag) if flag.get("sync", 0) or flag.get("asynchronous") is False or (style + q) % 2 else me.p

        async def call(q, o):
            key, args, _ = shape(o)
            started.append(q)
            ev.append({"op": "call", "k": q, "key": key, "args": args})
            try:
                r = await made(o, q, [{"sync": False}, {"asynchronous": True}][(style + q) % 2])
            except BaseException as e:
                x = "!" + how(e)
            else:
                x = "=" + enc(r)
            res.add(q)
            ev.append({"op": "res", "k": q, "o": x})

        def finish(n, o):
            if n in L.told:
                return
            L.told.add(n)
            g = L.live[n]
            if callable(g):
                g(o)
            elif o == "C":
                g.cancel()
            else:
                g.set_result(o)

        async def quiet():
            await settle(loop)
            ev.append({"op": "quiet"})

        def running():
            return [n for n in L.live if n not in L.told]
        try:
            for o in ops:
                op = o["op"]
                if op == "call":
                    k += 1
                    tasks[k] = loop.create_task(call(k, o))
                    if once:
                        await settle(loop)
                        for n in running():
                            finish(n, "=")
                        await settle(loop)
                elif op == "cancel":
                    w = [q for q in started if q not in res]
                    if w:
                        q = w[0 if o["w"] == 1 else -1]
                        ev.append({"op": "cancel", "k": q})
                        tasks[q].cancel()
                elif op == "end":
                    r = running()
                    if r:
                        finish(r[0 if o["w"] == 1 else -1], o["o"])
                elif op == "scall":
                    await quiet()
                    if not L.live:
                        k += 1
                        key, args, _ = shape(o)
                        ev.append({"op": "call", "k": k, "key": key, "args": args})

                        def go(q=k):
                            try:
                                return "=" + enc(made(o, q, [{"sync": True}, {"asynchronous": False}][(style + q) % 2]))
                            except BaseException as e:
                                return "!" + how(e)
                        now.append(o["o"])
                        r = in_thread(("bare", "idle")[(style + k) % 2], go)
                        now.clear()
                        ev.append({"op": "res", "k": k, "o": r})
                        await quiet()
                elif op == "adv":
                    await quiet()
                    ev.append({"op": "adv", "t": 6})
                    await advance(loop, 6)
                elif op == "tick":
                    await tick()
                elif op == "settle":
                    await quiet()
            await quiet()
            while running():
                for n in running():
                    finish(n, "=" if cfg["max"] or (style + n) % 3 else "!")
                await quiet()
        finally:
            L.over = True
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "body":
            yield "again", ev[:i + 1] + [dict(e, n=e["n"] + 50)] + ev[i + 1:]
            yield "args", ev[:i] + [dict(e, args="9/9")] + ev[i + 1:]
        if e["op"] == "res" and e["o"][0] == "=":
            yield "other", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
            yield "none", ev[:i] + ev[i + 1:]
        if e["op"] == "end":
            yield "cut", ev[:i] + [dict(e, asked=False)] + ev[i + 1:]
