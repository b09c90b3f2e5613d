"""C25 the semaphore and rate-limit modifiers."""
import asyncio, contextvars, threading
from concurrent.futures import Future
from ..common import *

MONITOR = "LimMon"
MUST_SEE = ["call", "start", "end", "res", "cancel", "quiet"]
ASSUMPTIONS = ["aiolimiter's leaky bucket: an idle limiter allows a burst of as many executions as its rate per minute", "bound methods are used at least every 300 s (the cache of bound methods)",
               "the limits of one member are counted per instance, as the weaker of the two readings", "an execution that is abandoned by the cancellation of its caller is not counted any more",
               "synchronous calls are made one after another in one thread"]
KEY = contextvars.ContextVar("key", default=None)


def spec(tier):
    th = tier == "thorough"
    base = dict(Insts={1, 2}, Args={1, 2}, Sems={0, 1, 2}, Rates={0, 2, 6}, Kinds={"fn", "meth", "prop"}, Defs={"async", "sync"}, Caches={True, False}, MaxK=25, MaxLen=99, MinEmit=40, W=1, Swap=False)
    inv = ["NoClauseViolated"]
    ex = dict(base, Insts={1}, Args={1}, Kinds={"fn"}, Defs={"async"}, Caches={False})
    return dict(
        models=[dict(module="LimModel", constants=dict(ex, Sems={0, 1}, Rates={0, 2}, MaxK=3, MaxLen=8 if th else 7), invariants=inv, view="View", workers=3),
                dict(module="LimModel", constants=dict(ex, Insts={1, 2}, Kinds={"fn", "meth"}, Args={1, 2}, Caches={True, False}, MaxK=3, MaxLen=6 if th else 5), invariants=inv, view="View", workers=3),
                dict(module="LimModel", constants=dict(ex, Sems={1}, Rates={0}, MaxK=3, MaxLen=7, Swap=True), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="LimModel", mode="all", constants=dict(ex, Sems={1, 2}, Rates={0, 2}, MaxK=4, MaxLen=6), cap=20000 if th else 1500),
              dict(module="LimModel", mode="sim", constants=dict(base, Kinds={"fn"}, Rates={0}, Sems={1, 2, 3}, W=4), num=5000 if th else 700, depth=41),
              dict(module="LimModel", mode="sim", constants=dict(base, Kinds={"fn"}, Rates={1, 2, 6, 12}), num=5000 if th else 700, depth=41),
              dict(module="LimModel", mode="sim", constants=dict(base, Kinds={"meth", "prop"}, Rates={0}, Sems={1, 2, 3}, W=4), num=5000 if th else 500, depth=41),
              dict(module="LimModel", mode="sim", constants=dict(base, Kinds={"meth", "prop"}, Rates={2, 6, 12}), num=5000 if th else 500, depth=41)])


def extra_scripts(tier, rng):
    """Synchronous calls of async-defined functions, in a thread that keeps its loop."""
    out = []
    for i in range(2000 if tier == "thorough" else 200):
        c = {"sem": rng.choice([0, 1, 2]), "rate": rng.choice([1, 2, 3, 6]), "kind": rng.choice(["fn", "meth", "prop"]), "def": "async", "cache": rng.random() < .2, "shared": False, "sync": True}
        ops = []
        for _ in range(rng.randrange(4, 25)):
            ops.append({"op": "adv", "t": rng.choice([5, 10, 25, 60])} if rng.random() < .3 else {"op": "scall", "i": rng.choice([1, 2]), "a": rng.choice([1, 2, 3]), "o": rng.choice("==!" if not c["cache"] else "=")})
        out.append([c] + ops)
    return out


class AutoLoop(VLoop):
    """Its clock jumps to the next timer when there is nothing else to do."""

    def __init__(self):
        super().__init__()
        sel = self._vsel
        plain = type(sel).__mro__[1].select

        def select(timeout=None):
            if timeout is not None and timeout > 0:
                self._vtime += timeout
                timeout = 0
            return plain(sel, timeout)
        sel.select = select


class Runs:
    def __init__(self, cfg, ev, style, clock):
        self.cfg, self.ev, self.style, self.clock = cfg, ev, style, clock
        self.live, self.told, self.now, self.n = {}, set(), None, 0

    def log(self, **e):
        self.ev.append(dict(e, at=int(round((self.clock() - 1000) * 1000))))

    def begin(self, a, kw):
        if self.cfg["kind"] == "prop":
            x = KEY.get() if not self.cfg["cache"] else "%s/0" % a[0].ident
        elif self.cfg["cache"]:
            i = a[0].ident if self.cfg["kind"] == "meth" else 1
            x = "%s/%s" % (i, kw["x"] if kw else a[-1])
        else:
            x = str(kw["x"] if kw else a[-1])
        self.log(op="start", x=x)
        self.n += 1
        return x

    def end(self, x, o):
        self.live.pop(x, None)
        if o == "=":
            v = [x, (x, "v"), None, 0, [x]][(self.style + self.n) % 5]
            self.log(op="end", x=x, o="=" + enc(v))
            return v
        if o == "C":
            self.log(op="end", x=x, o="!cancelled")
            raise asyncio.CancelledError
        e = type("Err" + x.replace("/", "_"), (Exception,), {})()
        self.log(op="end", x=x, o="!" + enc(e))
        raise e


class Gate:
    """An executor that runs a submitted function when the driver says so, in the same thread."""

    def __init__(self, R):
        self.R = R

    def submit(self, fn, /, *a, **kw):
        f, R = Future(), self.R
        x = R.begin(a, kw)

        def done(f):
            if f.cancelled() and x in R.live:
                R.live.pop(x)
                R.log(op="end", x=x, o="!cancelled")
        f.add_done_callback(done)

        def go(o):
            if f.cancelled():
                return
            R.now = (x, o)
            try:
                r = fn(*a, **kw)
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(r)
            finally:
                R.now = None
        R.live[x] = go
        return f


def limits(cfg, style):
    """The semaphore and the rate as the user may give them."""
    import a_sync
    from a_sync.primitives import ThreadsafeSemaphore
    n = cfg["sem"]
    kinds = [lambda: asyncio.Semaphore(n), lambda: a_sync.Semaphore(n), lambda: ThreadsafeSemaphore(n), lambda: a_sync.PrioritySemaphore(n)]
    sem = None if not n else kinds[style % 4]() if cfg["shared"] or style % 3 == 0 else n
    rate = cfg["rate"] or None
    if rate and cfg["shared"]:
        import aiolimiter
        rate = aiolimiter.AsyncLimiter(rate)
    return sem, rate


def build(cfg, style, R, instant=lambda: None):
    import a_sync
    from a_sync import a_sync as deco
    from a_sync.aliases import property as prop
    from a_sync.a_sync.modifiers.semaphores import apply_semaphore
    from a_sync.a_sync.modifiers.limiter import apply_rate_limit
    sem, rate = limits(cfg, style)
    opts = {}
    if cfg["sem"]:
        opts["semaphore"] = sem
    if rate is not None:
        opts["runs_per_minute"] = rate
    if cfg["cache"]:
        opts["cache_type"] = "memory"
    isasync = cfg["def"] == "async"
    if not isasync:
        opts["executor"] = Gate(R)

    def fsync(*a, **kw):
        return R.end(*R.now)

    async def fasync(*a, **kw):
        x = R.begin(a, kw)
        o = instant()
        if o is None:
            g = R.live[x] = asyncio.get_running_loop().create_future()
            try:
                o = await g
            except asyncio.CancelledError:
                return R.end(x, "C")
        return R.end(x, o)
    if cfg["kind"] == "fn":
        out = {}
        for i in (1, 2):
            if isasync:
                async def f(x):
                    return await fasync(x)
            else:
                def f(x):
                    return fsync(x)
            if isasync and not cfg["cache"] and style % 7 < 3 and not cfg.get("sync"):
                g = f                 # without a_sync(): the modifiers themselves
                if rate is not None:
                    g = apply_rate_limit(g, rate) if style % 2 else apply_rate_limit(rate)(g)
                if cfg["sem"]:
                    s = sem if not isinstance(sem, int) else a_sync.Semaphore(sem)
                    g = [lambda: apply_semaphore(g, sem), lambda: apply_semaphore(sem)(g), lambda: s(g) if not isinstance(s, asyncio.Semaphore) or isinstance(s, a_sync.Semaphore) else apply_semaphore(g, s)][style % 3]()
                out[i] = ("raw", g)
            else:
                out[i] = ("deco", [lambda: deco("async", **opts)(f), lambda: deco(f, **opts), lambda: deco(default="sync" if isasync else "async", **opts)(f)][style % 3 if isasync else 2 * (style % 2)]())
        return out
    ns = {"sync": False}
    if cfg["kind"] == "prop":
        if isasync:
            async def p(self):
                return await fasync(self)
        else:
            def p(self):
                return fsync(self)
        ns["p"] = prop(**opts)(p) if style % 2 else prop(p, **opts)
    else:
        if isasync:
            async def m(self, x):
                return await fasync(self, x)
        else:
            def m(self, x):
                return fsync(self, x)
        if style % 3 == 0:          # modifiers of the class
            ns.update(opts)
            ns["m"] = m
        else:
            ns["m"] = deco(default="async", **opts)(m) if style % 3 == 1 else deco("async", **opts)(m)

    def __init__(self, ident):
        a_sync.ASyncGenericBase.__init__(self)
        self.ident = ident
    ns["__init__"] = __init__
    C = type("Cls", (a_sync.ASyncGenericBase,), ns)
    return {1: C(1), 2: C(2)}


def ask(cfg, style, f, o, q, flag, paths=False):
    """Call q, made in one of the ways there are."""
    import a_sync
    me = f[o["i"]]
    arg = o["a"] if cfg["cache"] else q
    z = (style + q) % 6
    pos = z % 2 or cfg["cache"]         # f(1) and f(x=1) are cached apart
    if cfg["kind"] == "fn":
        how_, fn = me
        if how_ == "raw":
            return fn(arg) if z % 2 else fn(x=arg)
        if paths and z == 0:
            async def mapped():
                async for k, v in fn.map([arg]):
                    assert k == arg
                    return v
            return mapped()
        if paths and z == 1:
            return a_sync.TaskMapping(fn)[arg]
        return fn(arg, **flag) if pos else fn(x=arg, **flag)
    if cfg["kind"] == "meth":
        if flag.get("sync") or style % 3 == 0 and cfg["def"] == "sync" or z % 2:
            return me.m(arg, **flag) if pos or flag.get("sync") else me.m(x=arg, **flag)
        return me.m(arg) if pos else me.m(x=arg)
    if flag.get("sync") or z % 2:
        return me.__p__(**flag)
    return me.p


def xid(cfg, o, q):
    if not cfg["cache"]:
        return str(q)
    return "%s/%s" % (o["i"], 0 if cfg["kind"] == "prop" else o["a"])


def synchronous(cfg, ops, style, ev):
    def go():
        loop = AutoLoop()
        asyncio.set_event_loop(loop)
        now = []
        R = Runs(cfg, ev, style, loop.time)
        try:
            f = build(cfg, style, R, lambda: now[0])
            for q, o in enumerate(ops, 1):
                if o["op"] == "adv":
                    loop.advance(o["t"])
                    continue
                if cfg["kind"] == "fn":
                    o = dict(o, i=1)
                R.log(op="call", k=q, x=xid(cfg, o, q), i=o["i"])
                now[:] = [o["o"]]
                KEY.set(str(q))
                try:
                    r = "=" + enc(ask(cfg, style, f, o, q, {"sync": True}))
                except BaseException as e:
                    r = "!" + how(e)
                ev.append({"op": "res", "k": q, "o": r})
                R.log(op="quiet")
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    t = threading.Thread(target=contextvars.Context().run, args=(go,))
    t.start()
    t.join()
    return cfg, ev


def drive(script):
    cfg, ops = script[0], script[1:]
    style = shash(script)
    ev = []
    if cfg.get("sync"):
        return synchronous(cfg, ops, style, ev)
    cuts = any(o["op"] == "cancel" for o in ops)

    async def main(loop):
        R = Runs(cfg, ev, style, loop.time)
        f = build(cfg, style, R)
        tasks, started, res, k = {}, [], set(), 0

        async def call(q, o):
            if cfg["kind"] == "fn" and not cfg["shared"]:
                o = dict(o, i=1)
            started.append(q)
            R.log(op="call", k=q, x=xid(cfg, o, q), i=o["i"])
            KEY.set(str(q))
            try:
                r = await ask(cfg, style, f, o, q, [{"sync": False}, {"asynchronous": True}][(style + q) % 2], not cuts)
            except BaseException as e:
                r = "!" + how(e)
            else:
                r = "=" + enc(r)
            res.add(q)
            ev.append({"op": "res", "k": q, "o": r})

        def running():
            return [x for x in R.live if x not in R.told]

        def finish(x, o):
            R.told.add(x)
            g = R.live[x]
            if callable(g):
                g(o)
            elif not g.done():
                g.set_result(o)

        async def quiet():
            await settle(loop)
            R.log(op="quiet")
        for o in ops:
            op = o["op"]
            if op == "call":
                k += 1
                tasks[k] = loop.create_task(call(k, o))
            elif op == "cancel":
                w = [q for q in started if q not in res]
                if w:
                    q = w[0 if o["w"] == 1 else -1]
                    ev.append({"op": "cancel", "k": q})
                    tasks[q].cancel()
            elif op == "end":
                w = running()
                if w:
                    finish(w[0 if o["w"] == 1 else -1], o["o"])
            elif op == "adv":
                await quiet()
                await advance(loop, o["t"])
                await quiet()
            elif op == "tick":
                await tick()
            elif op == "settle":
                await quiet()
        # everything that was asked for takes place in the end
        for r in range(60):
            await quiet()
            for x in running():
                finish(x, "=" if cfg["cache"] or (style + r) % 3 else "!")
            await quiet()
            if len(res) == k:
                break
            if cfg["rate"] and (cfg["kind"] == "fn" or loop.time() < 1280):
                await advance(loop, 30)
            elif not running():
                break
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "start":
            yield "twice", ev[:i + 1] + [e] + ev[i + 1:]
            yield "other", ev[:i] + [dict(e, x="other")] + ev[i + 1:]
        if e["op"] == "res" and e["o"][0] == "=":
            yield "value", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
            yield "none", ev[:i] + ev[i + 1:]
    starts = [i for i, e in enumerate(ev) if e["op"] == "start"]
    if cfg["rate"] and len(starts) > cfg["rate"] and not cfg["sem"]:
        out = [dict(e) for e in ev]
        n = 0
        for e in out:       # all at once
            if e["op"] == "start":
                e["at"] = ev[starts[0]]["at"]
        if len({ev[i].get("x") for i in starts}) == len(starts) and cfg["kind"] == "fn":
            yield "rate", out
