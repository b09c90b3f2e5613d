"""C28 primitives, decorated functions and properties on several event loops in turn."""
import asyncio, logging
from ..common import *

MONITOR = "LoopMon"
LOUD = False        # sees to debug logging itself
MUST_SEE = ["new", "acq", "got", "rel", "wait", "set", "clear", "look", "call", "body", "end", "res", "cancel", "over", "quiet"]
ASSUMPTIONS = ["a loop that ends cancels its tasks first, as asyncio.run does", "all loops are run in one thread"]


def spec(tier):
    th = tier == "thorough"
    base = dict(Kinds={"sem", "fsem", "event", "counter", "memo"}, Ns={1, 2}, MaxK=3, MaxV=2, MaxLoops=3, MaxLen=99, MinEmit=99, W=1, Tidy=True)
    inv = ["NoClauseViolated", "Permits"]
    return dict(
        models=[dict(module="LoopModel", constants=dict(base, Kinds={"sem", "event", "counter", "memo"}, MaxK=4 if th else 3, MaxLen=12 if th else 9), invariants=inv, view="View", workers=6),
                dict(module="LoopModel", constants=dict(base, Kinds={"sem"}, MaxLen=8, Tidy=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="LoopModel", mode="all", constants=dict(base, MaxLen=7 if th else 6), cap=40000 if th else 6000),
              dict(module="LoopModel", mode="sim", constants=dict(base, Ns={1, 2, 3}, MaxK=25, MaxV=6, MaxLoops=9, MinEmit=40, W=2), num=15000 if th else 3000, depth=41)])


class Drop(logging.Handler):
    def emit(self, r):
        r.getMessage()


_drop = Drop()


def drive(script):
    cfg, ops = script[0], script[1:]
    style = shash(script)
    logger = logging.getLogger("a_sync")
    loud = style % 4 == 0
    was = logger.level, logger.propagate, logging.root.manager.disable
    if loud:        # the debug daemons run
        logging.disable(logging.NOTSET)
        logger.setLevel(logging.DEBUG)
        logger.propagate = False
        logger.addHandler(_drop)
    ev = []
    try:
        _drive(cfg, ops, style, ev)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        ev.append(escaped(e))
    finally:
        asyncio.set_event_loop(None)
        if loud:
            logger.removeHandler(_drop)
            logger.setLevel(was[0])
            logger.propagate = was[1]
            logging.disable(was[2])
    return cfg, ev


def _drive(cfg, ops, style, ev):
    import a_sync
    from a_sync.primitives import Semaphore, PrioritySemaphore, ThreadsafeSemaphore, Event, CounterLock
    kind = cfg["kind"]
    loops, tasks, gates = {}, {}, {}
    cur, other, nl, k, nb = 1, 0, 1, 0, 0
    body_gate = {}

    def loop():
        if cur not in loops:
            loops[cur] = VLoop()
            loops[cur].set_exception_handler(lambda l, c: None)
        asyncio.set_event_loop(loops[cur])
        return loops[cur]

    def inside(coro):
        return loop().run_until_complete(coro)

    async def fbody(w):
        ev.append({"op": "got", "w": w})
        try:
            gates[w] = asyncio.get_running_loop().create_future()
            await gates[w]
        finally:
            ev.append({"op": "rel", "w": w})

    async def mbody():
        nonlocal nb
        nb += 1
        b = nb
        ev.append({"op": "body", "b": b})
        body_gate[b] = asyncio.get_running_loop().create_future()
        try:
            o = await body_gate[b]
        except asyncio.CancelledError:
            ev.append({"op": "end", "b": b, "o": "!cancelled", "good": False})
            raise
        finally:
            body_gate.pop(b, None)
        if o == "!":
            e = type("Err%d" % b, (ValueError,), {})()
            ev.append({"op": "end", "b": b, "o": "!" + enc(e), "good": False})
            raise e
        ev.append({"op": "end", "b": b, "o": "=%d" % b, "good": True})
        return b

    def make():
        if kind == "sem":
            return [Semaphore, PrioritySemaphore, ThreadsafeSemaphore][style % 3](cfg["n"])
        if kind == "fsem":
            sem = [cfg["n"], cfg["n"], Semaphore(cfg["n"]), PrioritySemaphore(cfg["n"])][style % 4]
            if style % 5 == 4:
                return [Semaphore, PrioritySemaphore][style % 2](cfg["n"])(fbody)
            return a_sync.a_sync("async", semaphore=sem)(fbody)
        if kind == "event":
            return Event()
        if kind == "counter":
            return CounterLock(cfg["n0"]) if style % 2 else CounterLock()
        form = style % 5
        if form < 2:
            return a_sync.a_sync("async", **[dict(ram_cache_maxsize=None), dict(cache_type="memory")][form])(mbody)
        if form == 2:
            class C(a_sync.ASyncGenericBase):
                sync = False

                @a_sync.aliases.cached_property
                async def p(self):
                    return await mbody()
            c = C()
            return lambda: c.__p__()
        if form == 3:
            @a_sync.aliases.cached_property
            async def p(self):
                return await mbody()
            c = type("D", (), {"p": p})()
            p.__set_name__(type(c), "p") if not hasattr(p, "field_name") else None

            async def get():
                return await c.p
            return get
        class E(a_sync.ASyncGenericBase):
            sync = False

            @a_sync.a_sync(ram_cache_maxsize=None)
            async def m(self):
                return await mbody()
        e = E()
        return lambda: e.m()

    async def hold(w):
        x = X
        if isinstance(x, PrioritySemaphore) and (style + w) % 4:
            x = x[(style // 3 + w * 5) % 3 - 1]
        if (style + w) % 2 or isinstance(x, ThreadsafeSemaphore):
            async with x:
                await fbody(w)
        else:
            await x.acquire()
            try:
                await fbody(w)
            finally:
                x.release()

    async def run(w, f):
        n = len(ev)
        try:
            r = await f()
        except BaseException as e:
            o = "!" + how(e)
        else:
            o = "=" + enc(r)
        if kind in ("sem", "fsem") and any(e == {"op": "rel", "w": w} for e in ev[n:]):
            return
        ev.append({"op": "res", "w": w, "o": "=ok" if o == "=None" and kind in ("sem", "fsem") else o})

    def begin(op, f, **kw):
        nonlocal k
        k += 1
        w = k
        ev.append(dict({"op": op, "w": w, "l": cur}, **kw))
        tasks[w] = (cur, loop().create_task(run(w, lambda: f(w))))

    def mine(held=False):
        return [w for w, (l, t) in tasks.items() if l == cur and not t.done() and (not held or w in gates and not gates[w].done())]

    def do(e, f):
        def go():
            try:
                f()
            except BaseException as x:
                e["o"] = enc(x)
            else:
                e["o"] = "ok"
            ev.append(e)

        async def here():
            go()
        if (style + len(ev)) % 2:
            inside(here())
        else:
            go()

    async def quick():
        if kind == "memo" or style % 3 == 0:
            await settle(asyncio.get_running_loop())
        else:
            await tick((style + k) % 4)

    async def quiet():
        await settle(asyncio.get_running_loop())
        ev.append({"op": "quiet", "l": cur})

    def over():
        l = loop()
        ev.append({"op": "over", "l": cur})
        for t in asyncio.all_tasks(l):
            t.cancel()
        inside(settle(l))
        inside(l.shutdown_asyncgens())
        l.close()
        loops.pop(cur)
        asyncio.set_event_loop(None)

    def after():
        nonlocal cur, other, nl
        if other:
            cur, other = other, 0
        else:
            nl += 1
            cur = nl
    X = None
    place = style // 7 % 3
    asyncio.set_event_loop(None)
    try:
        if place == 0:
            X = make()          # there is no loop at all
        elif place == 1:
            loop()              # there is one that does not run
            X = make()
        else:
            async def there():
                return make()
            X = inside(there())
    except Exception as e:
        ev.append({"op": "new", "o": enc(e)})
        return
    ev.append({"op": "new", "o": "ok"})
    for j, o in enumerate(ops):
        op = o["op"]
        if op == "acq":
            begin("acq", hold if kind == "sem" else X)
            inside(quick())
        elif op == "call":
            begin("call", lambda w: X())
            inside(quick())
        elif op == "wait":
            begin("wait", (lambda w: X.wait()) if kind == "event" else (lambda w: X.wait_for(o["v"])), v=o["v"])
            inside(quick())
        elif op == "rel":
            h = mine(True)
            if h:
                gates[h[0 if o["w"] == 1 else -1]].set_result(None)
                inside(quick())
        elif op == "cut":
            m = mine()
            if m:
                w = m[0 if o["w"] == 1 else -1]
                if kind == "sem" or kind == "fsem" or (style + j) % 2:
                    inside(settle(loop()))
                if not tasks[w][1].done():
                    ev.append({"op": "cancel", "w": w})
                    tasks[w][1].cancel()
                    inside(quick())
        elif op == "set":
            if kind == "event":
                do({"op": "set", "v": 1}, X.set)
            elif (style + j) % 2:
                do({"op": "set", "v": o["v"]}, lambda: X.set(o["v"]))
            else:
                do({"op": "set", "v": o["v"]}, lambda: setattr(X, "value", o["v"]))
        elif op == "clear":
            do({"op": "clear"}, X.clear)
        elif op == "look":
            ev.append({"op": "look", "v": o["v"], "b": X.is_set() if kind == "event" else X.is_ready(o["v"])})
        elif op == "end":
            inside(quick())
            for b, g in list(body_gate.items()):
                if not g.done():
                    g.set_result(o["o"])
            inside(quick())
        elif op == "over":
            if kind == "memo" or (style + j) % 3 == 0:
                inside(settle(loop()))
            over()
            after()
        elif op == "swap":
            if other:
                cur, other = other, cur
            else:
                nl += 1
                cur, other = nl, cur
            inside(tick())
        elif op == "settle":
            inside(quiet())
    for _ in range(2):
        inside(quiet())
        for w in mine(True):
            gates[w].set_result(None)
        for b, g in list(body_gate.items()):
            if not g.done():
                g.set_result("=")
        inside(quiet())
        over()
        if not other:
            break
        after()
    after()
    # one more loop on which the object does its job
    n = 0
    while kind in ("sem", "fsem") and n <= cfg["n"]:
        n += 1
        begin("acq", hold if kind == "sem" else X)
    if kind == "event":
        begin("wait", lambda w: X.wait(), v=1)
        inside(quick())
        do({"op": "set", "v": 1}, X.set)
    elif kind == "counter":
        v = X.value + 1
        begin("wait", lambda w: X.wait_for(v), v=v)
        inside(quick())
        do({"op": "set", "v": v}, lambda: X.set(v))
    elif kind == "memo":
        begin("call", lambda w: X())
    inside(quiet())
    for w in mine(True):
        gates[w].set_result(None)
    inside(quiet())
    over()


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "got" and cfg["n"] == 1:
            yield "again", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "got" and i + 1 < len(ev) and ev[i + 1]["op"] == "quiet":
            yield "starved", ev[:i] + ev[i + 1:]
        if e["op"] == "res" and e["o"] == "=True":
            yield "other", ev[:i] + [dict(e, o="!E:RuntimeError")] + ev[i + 1:]
        if e["op"] == "look":
            yield "look", ev[:i] + [dict(e, b=not e["b"])] + ev[i + 1:]
        if e["op"] == "end" and e["good"]:
            yield "again", ev[:i + 1] + [{"op": "body", "b": 99}] + ev[i + 1:]
        if e["op"] == "new":
            yield "new", [dict(e, o="E:RuntimeError")] + ev[1:]
