"""Driver shared by C11 and C12: TaskMapping under script control."""
import asyncio, functools
from collections import deque
from .common import *


FKINDS = ["plain"] * 10 + ["limited", "limited", "deco", "sdeco", "partial", "lambda", "object", "bound", "sbound", "bounds", "me", "mes", "pr", "prs", "cp"]
OFCLASS = ("me", "mes", "pr", "prs", "cp")


def a_class(f):
    from a_sync import ASyncBase, a_sync as deco
    from a_sync.aliases import property as prop, cached_property as cached

    class Cls(ASyncBase):
        def __init__(self, n, sync):
            super().__init__()
            self.n, self.sync = n, sync

        def __lt__(self, other):
            return self.n < other.n

        def __hash__(self):
            return self.n

        def __eq__(self, other):
            return self is other

        async def to(self, key, **more):
            return await f(key if self.n == 7 else None, **more)

        @deco("sync")
        async def tos(self, key, **more):
            return await f(key if self.n == 7 else None, **more)

        async def me(self, **more):
            return await f(self, **more)

        @deco("sync")
        async def mes(self, **more):
            return await f(self, **more)

        @prop
        async def pr(self):
            return await f(self)

        @prop("sync")
        async def prs(self):
            return await f(self)

        @cached
        async def cp(self):
            return await f(self)
    return Cls


class Num:
    """A result which can be added in place."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return repr(self.n)

    def __bool__(self):
        return self.n != 0

    def __lt__(self, other):
        return self.n < other.n

    def __gt__(self, other):
        return self.n > other.n

    def __add__(self, other):
        return Num(self.n + plain(other))

    def __radd__(self, other):
        return self if other == 0 else Num(self.n + plain(other))

    def __iadd__(self, other):
        self.n += plain(other)
        return self


def plain(x):
    return x.n if isinstance(x, Num) else x


def number(r):
    r = plain(r)
    return int(r) if isinstance(r, int) else -999


class Tap:
    """A source under script control."""
    def __init__(self, loop):
        self.q, self.loop, self.fut = deque(), loop, None

    def put(self, x):
        self.q.append(x)
        if self.fut and not self.fut.done():
            self.fut.set_result(None)

    async def get(self):
        while not self.q:
            self.fut = self.loop.create_future()
            await self.fut
        return self.q.popleft()


def drive_map(script):
    from a_sync import TaskMapping, a_sync as deco
    cfg, ops = dict(script[0]), script[1:]
    ev = []
    style = shash(script)
    nsrc, kinds, conc, mode, pop, vals = (cfg[x] for x in ("nsrc", "kinds", "conc", "mode", "pop", "vals"))
    aggs = ("all", "any", "max", "min", "sum")

    fk = FKINDS[(style // 13) % len(FKINDS)]
    Cls = a_class(lambda *a, **k: body[0](*a, **k))
    body, owner = [], []

    cfg["fk"] = fk
    # created and consumed where no loop runs
    insync = (style // 17) % 6 == 3 and nsrc > 0 and mode in ("gather", "map", "mapit") + aggs

    def main(loop):
        rk = [lambda k: k - 1, lambda k: k, lambda k: 10 * k][style % 3] if mode in aggs + ("ksort", "vsort") else \
            [lambda k: k - 1, lambda k: "k%d" % (k - 1), lambda k: (k,), lambda k: [None, "", False, 1.5, "x", b"", 7, "y"][k - 1]][style % 4]
        back = {rk(k): k for k in range(1, len(vals) + 1)}
        small = mode in aggs + ("ksort", "vsort")
        if fk in OFCLASS:
            insts = {k: Cls(k, sync=bool((style >> k) % 2)) for k in range(1, len(vals) + 1)}
            rk, back = insts.get, {x: k for k, x in insts.items()}
        if small and (style // 5) % 4 == 2:
            nums = {k: Num(vals[k - 1]) for k in range(1, len(vals) + 1)}
            value = nums.get
        else:
            value = (lambda k: vals[k - 1]) if small else (lambda k: [("v", k), None, 0][0 if k != (style % 9) else 1 + style % 2])
        vback = {value(k): k for k in range(1, len(vals) + 1)}
        holds, tids, ended, taps, feeds = {}, {}, set(), {}, {}
        kw = [{}, {"b": 7}, {"b": 1, "c": None}][(style // 3) % 3]
        if fk in ("pr", "prs", "cp"):
            kw = {}
        st = {"eos": nsrc == 0, "over": False}
        statics = ("list", "gen", "set")

        async def f(key, b=-1, **more):
            k = back.get(key, -1)
            got = dict(more, **({} if b == -1 else {"b": b}))
            ev.append({"op": "call", "k": k, "a": "" if got == kw else enc(got)})
            holds[k] = loop.create_future()
            try:
                how_ = await holds[k]
            except asyncio.CancelledError:
                ev.append({"op": "kill", "k": k})
                raise
            finally:
                holds.pop(k, None)
            if how_ == "exc":
                # a cached property adds to the arguments of the exception, which only Boom shows
                e = [Boom if fk != "cp" else LookupError, ValueError, KeyError, TypeError][(style + k) % 4](k)
                ev.append({"op": "end", "k": k, "o": enc(e), "f": True})
                raise e
            r = value(k)
            ev.append({"op": "end", "k": k, "o": enc(r), "f": False})
            return r

        body.append(f)
        fn, flags = f, {}
        if fk == "deco":
            fn = deco(f)
        elif fk == "sdeco":
            fn = deco("sync")(f)
        elif fk == "limited":
            fn = deco(semaphore=conc)(f) if conc else deco(f)
        elif fk == "partial":
            fn = functools.partial(f)
        elif fk == "lambda":
            fn = lambda key, **more: f(key, **more)
        elif fk == "object":
            class Obj:
                async def __call__(self, key, **more):
                    return await f(key, **more)
            fn = Obj()
        elif fk in ("bound", "sbound", "bounds"):
            owner.append(Cls(7, sync=fk == "sbound"))
            fn = owner[0].to if fk != "bounds" else owner[0].tos
            flags = [{}, {}, {"sync": False}, {"asynchronous": True}][(style // 3) % 4]
        elif fk in OFCLASS:
            fn = getattr(Cls, fk)
            if fk in ("me", "mes"):
                flags = [{}, {}, {"sync": False}, {"asynchronous": True}][(style // 3) % 4]

        def eos_check():
            if not st["eos"] and all(i in ended for i in range(1, nsrc + 1)):
                st["eos"] = True
                ev.append({"op": "eos"})

        async def agen(i):
            while True:
                x = await taps[i].get()
                if x[0] == "eos":
                    ended.add(i)
                    eos_check()
                    return
                if x[0] == "fail":
                    ev.append({"op": "sfail", "o": enc(x[1])})
                    ended.add(i)
                    eos_check()
                    raise x[1]
                ev.append({"op": "avail", "k": x[1]})
                yield rk(x[1])

        async def aw(i):
            keys = []
            while True:
                x = await taps[i].get()
                if x[0] == "eos":
                    break
                if x[0] == "fail":
                    ev.append({"op": "sfail", "o": enc(x[1])})
                    ended.add(i)
                    eos_check()
                    raise x[1]
                keys.append(x[1])
            if not keys:
                keys = [1]
            for k in keys:
                ev.append({"op": "avail", "k": k})
            ended.add(i)
            eos_check()
            return [rk(k) for k in keys]

        class AIter:
            """an async iterable that is no generator"""
            def __init__(self, i):
                self.i = i

            def __aiter__(self):
                return agen(self.i)

        def gen(i, keys):
            for k in keys:
                ev.append({"op": "avail", "k": k})
                yield rk(k)
            ended.add(i)
            eos_check()

        sources = []

        def build():
            for i in range(1, nsrc + 1):
                kd = kinds[i - 1]
                keys = [o["k"] for o in ops if o["op"] == "feed" and o["i"] == i]
                if kd in ("list", "set"):
                    keys = keys or [1]
                    rks = [rk(k) for k in keys]
                    sources.append((set(rks) if kd == "set" else rks, i, keys))
                elif kd == "gen":
                    sources.append((gen(i, keys), i, keys))
                else:
                    taps[i] = Tap(loop)
                    c = (agen(i) if (style + i) % 2 else AIter(i)) if kd == "agen" else aw(i)
                    sources.append((c, i, keys))

        def offer():
            """lists are available as soon as they are handed over"""
            for s, i, keys in sources:
                if kinds[i - 1] in ("list", "set"):
                    for k in keys:
                        ev.append({"op": "avail", "k": k})
                    ended.add(i)
            eos_check()
        m = None
        consumer, permits, wake, stop = None, [0], [None], [False]
        free, torn = [False], []

        async def gate():
            while not permits[0] and not free[0]:
                wake[0] = loop.create_future()
                await wake[0]
            if not free[0]:
                permits[0] -= 1

        def item(k, v):
            ev.append({"op": "item", "k": k, "v": v})

        def report(x):
            if mode == "keys" or (mode in ("map", "mapit") and keys_only):
                item(back.get(x, -1), "" if mode == "keys" else None)
            elif mode == "values":
                item(vback.get(x, -1), enc(x))
            else:
                item(back.get(x[0], -1), enc(x[1]))
        keys_only = False

        async def iterate(it):
            while True:
                await gate()
                ev.append({"op": "want"})
                try:
                    x = await it.__anext__()
                except StopAsyncIteration:
                    ev.append({"op": "endit"})
                    return
                report(x)
                if stop[0]:
                    ev.append({"op": "stop"})
                    if hasattr(it, "aclose"):
                        await it.aclose()
                    return

        def view(n, p):
            return getattr(m, n)(pop=p) if p or style % 2 else getattr(m, n)()

        async def consume():
            try:
                if mode == "await":
                    r = await m
                    ev.append({"op": "res", "ks": [back.get(k, -1) for k in r], "vs": [enc(v) for v in r.values()], "rex": False})
                elif mode == "gather":
                    rex = style % 3 == 0
                    r = await m.gather(sync=False, **({"return_exceptions": True} if rex else {}))
                    ev.append({"op": "res", "ks": [back.get(k, -1) for k in r], "vs": [enc(v) for v in r.values()], "rex": rex})
                elif mode == "aiter":
                    await iterate(m.__aiter__(pop=pop) if pop or style % 2 else m.__aiter__())
                elif mode in ("map", "mapit"):
                    its = [s for s, _, _ in sources] if mode == "mapit" else []
                    if mode == "mapit":
                        offer()
                    args = {} if pop and style % 2 else {"pop": pop}
                    await iterate(m.map(*its, **args).__aiter__())
                elif mode in ("keys", "values", "items"):
                    v = view(mode, pop)
                    if style % 4 == 3:      # the whole view at once
                        r = await v
                        for x in r:
                            report(x)
                        ev.append({"op": "endit"})
                    else:
                        await iterate(v.__aiter__())
                elif mode in aggs and direct():
                    # the function's own aggregate
                    its = [s for s, _, _ in sources]
                    args = dict(kw, **flags)
                    if conc and fk != "limited":
                        args["concurrency"] = conc
                    if style % 4 == 1:
                        args["name" if fk in OFCLASS else "task_name"] = "nm"
                    if fk in OFCLASS:
                        for x in ("sync", "asynchronous"):
                            args.pop(x, None)
                        args.update([{"sync": False}, {"asynchronous": True}][style % 2])
                    offer()
                    r = await getattr(fn, mode)(*its, **args)
                    ev.append({"op": "agg", "n": number(r), "b": repr(r)})
                elif mode in aggs:
                    default = mode != "sum"
                    args = {} if pop == default and style % 2 else {"pop": pop}
                    r = await getattr(m, mode)(sync=False, **args)
                    ev.append({"op": "agg", "n": number(r), "b": repr(r)})
                elif mode in ("ksort", "vsort"):
                    vn = ["keys", "values", "items"][(style // 7) % 3]
                    rev = bool((style // 3) % 2)
                    q = []
                    it = getattr(view(vn, pop), "aiterbykeys" if mode == "ksort" else "aiterbyvalues")(**({"reverse": rev} if rev or style % 5 else {}))
                    async for x in it:
                        q.append(back.get(x, -1) if vn == "keys" else plain(x) if vn == "values" else back.get(x[0], -1) if value(back.get(x[0], 1)) == x[1] else -1)
                    ev.append({"op": "sorted", "by": mode[0], "rev": rev, "view": vn, "q": q})
            except (Exception, asyncio.CancelledError) as e:
                if not torn:
                    ev.append({"op": "raise", "o": how(e)})
            finally:
                st["over"] = True
                unharmed()

        def unharmed():
            if small and any(plain(value(k)) != vals[k - 1] for k in range(1, len(vals) + 1)):
                ev.append({"op": "escaped", "how": "a result was modified", "at": ""})

        def snapshot():
            for key, t in dict.items(m) if m is not None else ():
                snap[back.get(key, -1)] = t
        snap, gone = {}, []
        async def begin():
            nonlocal consumer
            ev.append({"op": "begin", "w": mode not in ("aiter", "map", "mapit", "keys", "values", "items") or (mode in ("keys", "values", "items") and style % 4 == 3)})
            consumer = loop.create_task(consume())

        def make():
            nonlocal m
            build()
            made.append(1)
            if direct():
                return
            args = dict(kw)
            if conc and fk != "limited":      # there the function itself has the limit
                args["concurrency"] = conc
            if style % 4 == 1:
                args["name"] = "nm"
            its = [] if mode == "mapit" else [s for s, _, _ in sources]
            if hasattr(fn, "map") and style % 3 and not (fk in ("pr", "prs", "cp") and len(its) != 1):
                if "name" in args and fk not in OFCLASS:
                    args["task_name"] = args.pop("name")
                m = fn.map(*its, **args, **flags)
            else:
                m = TaskMapping(fn, *its, **args, **flags)
            if mode != "mapit":
                offer()

        made = []

        def direct():
            return not insync and mode in aggs and pop and nsrc > 0 and style % 5 < 2 and hasattr(fn, mode) and \
                not (fk in ("pr", "prs", "cp") and nsrc != 1)

        def get(k):
            t = m[rk(k)]
            ev.append({"op": "get", "k": k, "i": tids.setdefault(id(t), len(tids) + 1)})
            snap[k] = t

        early = (style // 11) % 4 > 0        # tasks may be cancelled before they start

        async def play(ops):
            for i, o in enumerate(ops):
                op = o["op"]
                if op == "make":
                    make()
                elif op == "feed":
                    if o["i"] in taps:
                        taps[o["i"]].put(("k", o["k"]))
                elif op == "eos":
                    taps[o["i"]].put(("eos",))
                elif op == "sfail":
                    taps[o["i"]].put(("fail", Boom("s%d" % o["i"])))
                elif op == "get":
                    if not st["over"] and m is not None:
                        get(o["k"])
                elif op == "cancel":
                    for _ in range(20 * early):
                        if m is None or dict.get(m, rk(o["k"])) is not None:
                            break
                        await asyncio.sleep(0)
                    t = dict.get(m, rk(o["k"])) if m is not None else None
                    if t is not None and not t.done() and (o["k"] in holds or early):
                        ev.append({"op": "cancel", "k": o["k"]})
                        t.cancel()
                elif op == "begin":
                    await begin()
                elif op == "pull":
                    permits[0] += 1
                    if wake[0] and not wake[0].done():
                        wake[0].set_result(None)
                elif op == "stop":
                    stop[0] = True
                elif op == "fin":
                    if o["k"] in holds and not holds[o["k"]].done():
                        holds[o["k"]].set_result("exc" if o["f"] else "ret")
                if m is not None:
                    snapshot()
                r = (style >> (i % 17)) % 4
                if op == "tick":
                    await settle(loop)
                    if not insync:
                        ev.append({"op": "quiet"})
                else:
                    await tick(r)
                if m is not None:
                    snapshot()
            if insync:          # everything comes to its end
                for i, t in taps.items():
                    t.put(("eos",))
                for r in range(100):
                    await settle(loop)
                    left = [k for k in holds if not holds[k].done()]
                    if left:
                        holds[left[(style + r) % len(left)]].set_result("ret")
                    elif st["over"]:
                        return
                    elif r > 60:
                        loop.stop()     # it hangs

        def consume_in_sync():
            try:
                if mode == "gather":
                    rex = style % 3 == 0
                    r = m.gather(**({"return_exceptions": True} if rex else {}))
                    ev.append({"op": "res", "ks": [back.get(k, -1) for k in r], "vs": [enc(v) for v in r.values()], "rex": rex})
                elif mode in ("map", "mapit"):
                    its = [s for s, _, _ in sources] if mode == "mapit" else []
                    if mode == "mapit":
                        offer()
                    it = iter(m.map(*its, **({} if pop and style % 2 else {"pop": pop})))
                    while True:
                        ev.append({"op": "want"})
                        try:
                            x = next(it)
                        except StopIteration:
                            ev.append({"op": "endit"})
                            break
                        report(x)
                else:
                    default = mode != "sum"
                    args = {} if pop == default and style % 2 else {"pop": pop}
                    r = getattr(m, mode)(**args, **({"sync": True} if style % 3 == 1 else {}))
                    ev.append({"op": "agg", "n": number(r), "b": repr(r)})
            except (Exception, asyncio.CancelledError) as e:
                ev.append({"op": "raise", "o": how(e)})
            finally:
                st["over"] = True

        def sync_run():
            nonlocal consumer
            use = [o for o in ops if o["op"] not in ("stop", "begin", "get")]
            first = [o for o in use if o["op"] == "make"]
            if style % 2:
                detach(loop)
            make()
            ev.append({"op": "begin", "w": True})
            player = loop.create_task(play([o for o in use if o not in first]))
            consume_in_sync()
            consumer = loop.create_future()
            consumer.set_result(None)
            loop.run_until_complete(player)
            loop.run_until_complete(finish())

        async def finish():
            # let everything come to its end
            if not made:
                make()
            if consumer is None:
                if nsrc == 0 and not dict.__len__(m):
                    get(1)
                await begin()
            free[0] = True
            if wake[0] and not wake[0].done():
                wake[0].set_result(None)
            for i, t in taps.items():
                t.put(("eos",))
            for r in range(60):
                await settle(loop)
                ev.append({"op": "quiet"})
                snapshot()
                if consumer.done() and pop and not gone and not any(e["op"] == "sfail" for e in ev):
                    gone.append(1)
                    for k, t in snap.items():
                        ev.append({"op": "left", "k": k, "st": "done" if t.done() else "pending"})
                left = [k for k in holds if not holds[k].done()]
                if not left:
                    break
                holds[left[(style + r) % len(left)]].set_result("ret")
            await settle(loop)
            if not consumer.done():
                ev.append({"op": "quiet"})
                torn.append(1)
                return
            if m is None:
                return
            size_ok = not stop[0] and not any(e["op"] in ("raise", "sfail", "cancel") for e in ev) and st["eos"]
            if pop or size_ok:
                ev.append({"op": "size", "n": dict.__len__(m)})
            for k, t in snap.items():
                ev.append({"op": "left", "k": k, "st": "done" if t.done() else "pending"})
            if pop:
                try:
                    how_ = style % 5
                    if how_ == 0:
                        await m.any(pop=True, sync=False)
                    elif how_ == 1:
                        async for _ in m.keys(pop=True):
                            pass
                    elif how_ == 2:
                        async for _ in m.__aiter__(pop=True):
                            pass
                    elif how_ == 3:
                        async for _ in m.map(pop=True):
                            pass
                    else:
                        await m.items(pop=True)
                except Exception as e:
                    ev.append({"op": "again", "o": enc(e)})
                else:
                    ev.append({"op": "again", "o": ""})
            elif size_ok and not any(e.get("f") for e in ev) and dict.__len__(m):
                r = dict(await m.items()) if style % 2 else await m
                ev.append({"op": "res2", "ks": [back.get(k, -1) for k in r], "vs": [enc(v) for v in r.values()]})
            if style % 3 == 0:
                await m.close()
                if dict.__len__(m):
                    ev.append({"op": "escaped", "how": "close left tasks", "at": ""})

        async def in_loop():
            await play(ops)
            await finish()
        return sync_run() if insync else in_loop()
    guarded(main, ev)
    return cfg, ev


def map_corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "item":
            yield "twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "item" and cfg["mode"] not in ("keys",):
            yield "value", ev[:i] + [dict(e, v=str(e["v"]) + "x")] + ev[i + 1:]
        if e["op"] == "call":
            yield "called twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "agg" and cfg["mode"] in ("max", "min", "sum"):
            yield "agg", ev[:i] + [dict(e, n=e["n"] + 1)] + ev[i + 1:]
        if e["op"] == "sorted" and len(set(e["q"])) > 1:
            yield "sorted", ev[:i] + [dict(e, q=e["q"][1:])] + ev[i + 1:]
        if e["op"] == "res" and e["ks"] and any(x["op"] == "avail" and x["k"] == e["ks"][0] for x in ev):
            yield "missing", ev[:i] + [dict(e, ks=e["ks"][1:], vs=e["vs"][1:])] + ev[i + 1:]
