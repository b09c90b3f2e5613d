"""C22 cached properties."""
import asyncio, queue, threading
from ..common import *
from ..threads import in_thread, wait_for

MONITOR = "CachMon"
MUST_SEE = ["acc", "await", "body", "end", "cancel", "res", "sacc", "sync", "set", "del", "quiet"]
ASSUMPTIONS = ["threads of the executors get scheduled within 3 s of real time", "values are not awaitable", "one event loop at a time requests a property"]


def spec(tier):
    th = tier == "thorough"
    base = dict(MaxI=2, Names={"a", "b", "s"}, MaxK=4, MaxSet=2, MaxLen=99, MinEmit=99, W=1, SetWins=True)
    inv = ["NoClauseViolated"]
    return dict(
        models=[dict(module="CachModel", constants=dict(base, MaxI=1, Names={"a"}, MaxK=4 if th else 3, MaxLen=10 if th else 8, MaxSet=2 if th else 1), invariants=inv, view="View", workers=4),
                dict(module="CachModel", constants=dict(base, MaxI=1, Names={"a"}, MaxK=3, MaxLen=8, SetWins=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="CachModel", mode="all", constants=dict(base, MaxI=1, Names={"a"}, MaxK=3, MaxSet=1, MaxLen=6), cap=20000 if th else 3000),
              dict(module="CachModel", mode="sim", constants=dict(base, MaxI=1, Names={"a"}, MaxK=12, MaxSet=3, MinEmit=30, W=2), num=8000 if th else 1500, depth=31),
              dict(module="CachModel", mode="sim", constants=dict(base, MaxI=1, Names={"s"}, MaxK=10, MaxSet=3, MinEmit=24), num=3000 if th else 500, depth=25),
              dict(module="CachModel", mode="sim", constants=dict(base, MaxI=2, Names={"a", "b", "s"}, MaxK=25, MaxSet=6, MinEmit=60, W=4), num=6000 if th else 600, depth=61)])


class Refused(Exception):
    pass


def build(cfg, style, L):
    """The class under test; L is the log of loads."""
    import a_sync
    from a_sync.aliases import property as prop, cached_property as cached
    ns = {}

    async def a(self):
        n, gate, box = L.begin((self.ident, "a"))
        if box is None:
            try:
                box = await gate
            except asyncio.CancelledError:
                L.cut(n)
                raise
        return L.end(n, box)

    async def b(self):
        n, gate, box = L.begin((self.ident, "b"))
        if box is None:
            try:
                box = await gate
            except asyncio.CancelledError:
                L.cut(n)
                raise
        return L.end(n, box)

    def s(self):
        n, gate, box = L.begin((self.ident, "s"), True)
        return L.end(n, gate.get() if box is None else box)
    form = style % 4
    ns["a"] = [a_sync.cached_property, a_sync.cached_property, cached, cached()][form](a)
    ns["b"] = cached("sync")(b) if form % 2 else cached(default="sync")(b)
    ns["s"] = [cached, a_sync.cached_property][form // 2](s)
    if cfg["setter"]:
        for m in "abs":
            def fset(self, v, m=m):
                L.fset((self.ident, m), v)

            def fdel(self, m=m):
                L.fdel((self.ident, m))
            fset.__name__ = fdel.__name__ = m
            d = ns[m].setter(fset)
            ns[m] = d.deleter(fdel)
    top = object if cfg["kind"] == "plain" else a_sync.ASyncGenericBase
    if cfg["kind"] != "plain":
        ns["sync"] = cfg["kind"] == "sync"

    def __init__(self, ident):
        if cfg["kind"] != "plain":
            top.__init__(self)
        self.ident = ident
    ns["__init__"] = __init__
    return type("Cls", (top,), ns)


class Loads:
    def __init__(self, ev, style, loop):
        self.ev, self.style, self.loop = ev, style, loop
        self.n, self.now, self.live, self.calls, self.over, self.told = 0, None, {}, {}, False, set()
        self.floor, self.begun = {}, {}
        self.fell = 0           # loads a thread of an executor has ended

    def value(self):
        n = self.n
        return [n, (n, "v"), None, "s%d" % n, 0, [n], False, {"n": n}][(self.style + n) % 8]

    def begin(self, x, thread=False):
        self.n += 1
        n = self.n
        self.ev.append({"op": "body", "x": list(x), "n": n})
        self.begun[x] = n
        if self.over:
            raise Boom()
        g = None
        if self.now is None:
            g = queue.SimpleQueue() if thread else self.loop.create_future()
        self.live[n] = (x, g)
        return n, g, self.now

    def newer(self, x, n):
        """Requests from now on need a load newer than the n-th."""
        self.floor[x] = max(self.floor.get(x, 0), n + 1)

    def end(self, n, o):
        x = self.live[n][0]
        if isinstance(self.live[n][1], queue.SimpleQueue):
            self.fell += 1
        if o != "=":
            self.newer(x, n)
        self.live.pop(n)
        if o == "=":
            v = self.value()
            self.ev.append({"op": "end", "n": n, "x": list(x), "o": "=" + enc(v), "good": True, "asked": True})
            return v
        e = type("Err%d" % n, ((ValueError, KeyError, Exception, RuntimeError)[n % 4],), {})()
        self.ev.append({"op": "end", "n": n, "x": list(x), "o": "!" + enc(e), "good": False, "asked": True})
        raise e

    def cut(self, n):
        x, g = self.live[n]
        self.newer(x, n)
        self.live.pop(n)
        self.ev.append({"op": "end", "n": n, "x": list(x), "o": "!cancelled", "good": False, "asked": n in self.told})

    def fset(self, x, v):
        self.calls[("s", x)] = self.calls.get(("s", x), 0) + 1
        if isinstance(v, tuple) and v and v[0] == "bad":
            raise Refused()

    def fdel(self, x):
        self.calls[("d", x)] = self.calls.get(("d", x), 0) + 1


def drive(script):
    cfg, ops = script[0], script[1:]
    style = shash(script)
    ev = []

    async def main(loop):
        L = Loads(ev, style, loop)
        C = build(cfg, style, L)
        inst = {i: C(i) for i in (1, 2)}
        aw, tasks, x_of, started, res, k = {}, {}, {}, set(), set(), 0
        ended = set()

        def busy(x):
            return any(y == x for y, _ in L.live.values())

        def waiting():
            return [q for q in started if q not in res]

        async def wait(q):
            started.add(q)
            need[q] = L.floor.get(x_of[q], 0)
            ev.append({"op": "await", "k": q})
            try:
                r = await aw[q]
            except BaseException as e:
                o = "!" + how(e)
            else:
                o = "=" + enc(r)
            res.add(q)
            ev.append({"op": "res", "k": q, "o": o})

        def still():
            """Everything has happened that the driver does not hold back itself (see threads)."""
            for q in tasks:
                if q in res and q not in cut:
                    continue
                if q not in started:
                    return False
                x = x_of[q]
                if q in cut:
                    if q not in res or L.begun.get(x, 0) < need[q]:
                        return False
                elif not any(y == x and n >= need[q] and n not in L.told for n, (y, g) in list(L.live.items())):
                    return False
            return True

        async def quiet():
            await wait_for(loop, still)
            # what a thread has computed becomes visible when the loop is told
            await wait_for(loop, lambda: not any(isinstance(g, queue.SimpleQueue) and n in L.told for n, (y, g) in list(L.live.items())))
            await wait_for(loop, lambda: loop.foreign >= L.fell, 0.3)
            ev.append({"op": "quiet"})
        cut, need = set(), {}
        threads = any(o.get("p") == "s" for o in ops)
        try:
            for j, o in enumerate(ops):
                op = o["op"]
                x = (o.get("i"), o.get("p"))
                if x[1] == "b" and cfg["kind"] == "plain":
                    continue
                if op == "acc":
                    k += 1
                    me, p = inst[o["i"]], o["p"]
                    x_of[k] = x
                    direct = cfg["kind"] == "plain" or o["path"] == "direct" and p != "b" and cfg["kind"] != "sync"
                    ev.append({"op": "acc", "k": k, "x": list(x), "path": "direct" if direct else "hidden"})
                    if direct:
                        aw[k] = getattr(me, p)
                    else:
                        hid = getattr(me, "__%s__" % p)
                        aw[k] = [lambda: hid, lambda: hid(), lambda: hid(sync=False), lambda: hid(asynchronous=True)][(style + k) % 4]()
                elif op == "go":
                    free = [q for q in aw if q not in tasks]
                    if free:
                        q = free[0 if o["w"] == 1 else -1]
                        tasks[q] = loop.create_task(wait(q))
                elif op == "cancel":
                    w = waiting()
                    if w:
                        q = w[0 if o["w"] == 1 else -1]
                        cut.add(q)
                        ev.append({"op": "cancel", "k": q})
                        tasks[q].cancel()
                elif op == "end":
                    for n, (y, g) in sorted(L.live.items()):
                        if y == x and n not in L.told:
                            L.told.add(n)
                            if isinstance(g, queue.SimpleQueue):
                                g.put("!" if o["o"] == "C" else o["o"])
                            elif o["o"] == "C":
                                g.cancel()
                            else:
                                g.set_result(o["o"])
                            break
                elif op == "set":
                    bad = o["o"] == "x"
                    v = ("bad", j) if bad else [j + 100, None, 0, (), "", "v%d" % j, [j + 100]][(style + j) % 7]
                    was = L.calls.get(("s", x), 0)
                    try:
                        setattr(inst[o["i"]], o["p"], v)
                    except BaseException as e:
                        r = enc(e)
                    else:
                        r = "ok"
                    if r == "ok":
                        L.newer(x, L.n)
                    ev.append({"op": "set", "x": list(x), "v": "=" + enc(v), "o": r, "want": "E:Refused" if bad and cfg["setter"] else "ok", "fs": L.calls.get(("s", x), 0) - was})
                elif op == "del":
                    was = L.calls.get(("d", x), 0)
                    try:
                        delattr(inst[o["i"]], o["p"])
                    except BaseException as e:
                        r = enc(e)
                    else:
                        r = "ok"
                    if r == "ok":
                        L.newer(x, L.n)
                    ev.append({"op": "del", "x": list(x), "o": r, "fd": L.calls.get(("d", x), 0) - was})
                elif op == "sacc":
                    if not busy(x) and not any(x_of[q] == x for q in tasks if q not in res):
                        await wait_for(loop, lambda: not loop._ready, 0.1)
                        ev.append({"op": "sacc", "x": list(x)})
                        me, p = inst[o["i"]], o["p"]

                        def go():
                            try:
                                if p == "b" or cfg["kind"] != "async":
                                    return "=" + enc(getattr(me, p))
                                return "=" + enc(getattr(me, "__%s__" % p)(sync=True))
                            except BaseException as e:
                                return "!" + how(e)
                        L.now = o["o"]
                        r = in_thread(("bare", "idle")[(style + j) % 2], go)
                        L.now = None
                        ev.append({"op": "sync", "o": r})
                elif op == "tick":
                    await tick()
                elif op == "settle":
                    await quiet()
                if threads:
                    await quiet()
            await quiet()
            for r in range(4):
                for n, (y, g) in sorted(L.live.items()):
                    if n not in L.told:
                        L.told.add(n)
                        c = ["=", "!", "="][(style + n) % 3]
                        g.put(c) if isinstance(g, queue.SimpleQueue) else g.set_result(c)
                await quiet()
                for q in aw:
                    if q not in tasks:
                        tasks[q] = loop.create_task(wait(q))
                await quiet()
        finally:
            L.over = True
            for n, (y, g) in list(L.live.items()):
                if isinstance(g, queue.SimpleQueue):
                    g.put("!")
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "body":
            yield "again", ev[:i + 1] + [dict(e, n=e["n"] + 50)] + ev[i + 1:]
        if e["op"] == "res" and e["o"][0] == "=":
            yield "other", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
            yield "none", ev[:i] + ev[i + 1:]
        if e["op"] == "res" and e["o"] == "!cancelled":
            yield "never", [x for x in ev if x != e]
        if e["op"] == "sync":
            yield "sync", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
        if e["op"] == "del":
            yield "del", ev[:i] + [dict(e, o="E:ValueError")] + ev[i + 1:]
        if e["op"] == "end":
            yield "cut", ev[:i] + [dict(e, asked=False)] + ev[i + 1:]
