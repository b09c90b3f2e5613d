"""Driver shared by C14 (gather) and C15 (as_completed)."""
import asyncio, io
from .common import *


class Cust:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


def drive_gath(script):
    import a_sync
    from a_sync.asyncio import gather, as_completed
    ops = script[1:]
    style = shash(script)
    kind, n, rex, aiter, tmo = (script[0][x] for x in ("kind", "n", "rex", "aiter", "tmo"))
    mapping = kind in ("gmap", "acmap")
    KINDS = ["coro", "fut", "task", "cust", "asf"]
    item = {i: KINDS[style % 5] if script[0]["items"] == "same" else KINDS[(style // (i + 3)) % 5] for i in range(1, n + 1)}
    same = {}       # i -> an earlier future which also stands at position i
    if kind in ("gather", "gmap") and style % 6 == 0 and n > 2:
        item[1] = "fut"
        same[n] = 1
        item[n] = "fut"
    cfg = dict(script[0], strict=len(set(item.values())) == 1 and not same)
    bar = script[0].get("tqdm", style % 4 == 1)
    ev = []
    values = [lambda i: ("r", i), lambda i: i % 3 == 0, lambda i: [None, 0, "", "x", (), [], {}, 1.5][i % 8], lambda i: i % 2][(style // 5) % 4]

    def excl(v):
        if not script[0]["excl"]:
            return False
        return [lambda v: not v, lambda v: isinstance(v, Exception), lambda v: v is None or isinstance(v, tuple), lambda v: True][(style // 11) % 4](v)

    async def main(loop):
        gate, preset, done = {}, {}, set()

        def comp(i, o, f, v):
            for j in [i] + [j for j in same if same[j] == i]:
                ev.append({"op": "comp", "i": j, "o": o, "f": f, "x": excl(v)})

        def outcome(i, o):
            if o == "exc":
                e = [Boom, ValueError, KeyError, LookupError][(style + i) % 4](i)
                return True, e
            return False, values(i)

        def begin_item(i):
            for j in [i] + [j for j in same if same[j] == i]:
                ev.append({"op": "start", "i": j})

        async def body(i):
            begin_item(i)
            if i not in preset:
                gate[i] = loop.create_future()
                o = await gate[i]
            else:
                o = preset[i]
            f, v = outcome(i, o)
            comp(i, enc(v), f, v)
            if f:
                raise v
            return v

        def make(i):
            k = item[i]
            if i in same:
                return made[same[i]]
            if k == "fut":
                gate[i] = loop.create_future()
                if i in preset:
                    finish(i, preset[i])
                return gate[i]
            if k == "task":
                return loop.create_task(body(i))
            if k == "cust":
                return Cust(body(i))
            if k == "asf":
                return a_sync.ASyncFuture(body(i))
            return body(i)

        def finish(i, o):
            g = gate[i]
            if g.done():
                return
            if item[i] == "fut":
                f, v = outcome(i, o)
                comp(i, enc(v), f, v)
                g.set_exception(v) if f else g.set_result(v)
            else:
                g.set_result(o)
        made = {}
        keys = {i: [i, "k%d" % i, (i,)][style % 3] for i in range(1, n + 1)}
        back = {v: k for k, v in keys.items()}
        permits, wake, free = [0], [None], [False]
        kw = {}
        if rex or style % 2:
            kw["return_exceptions"] = rex
        if bar:
            kw["tqdm"] = True
            kw["file"] = io.StringIO()
            if style % 3:
                kw["desc"] = "x"
        if tmo:
            kw["timeout"] = tmo / 10
        elif kind in ("ac", "acmap") and style % 5 == 0:
            kw["timeout"] = None

        async def gate_want():
            while not permits[0] and not free[0]:
                wake[0] = loop.create_future()
                await wake[0]
            if not free[0]:
                permits[0] -= 1
            ev.append({"op": "want"})

        def report(r):
            if mapping:
                ev.append({"op": "item", "k": back.get(r[0], -1), "o": enc(r[1])})
            else:
                ev.append({"op": "item", "k": 0, "o": enc(r)})

        async def consume():
            args = {keys[i]: made[i] for i in made} if mapping else list(made.values())
            if kind in ("gather", "gmap"):
                if script[0]["excl"]:
                    kw["exclude_if"] = excl
                try:
                    r = await (gather(args, **kw) if mapping else gather(*args, **kw))
                except BaseException as e:
                    if not torn:
                        ev.append({"op": "raise", "o": how(e)})
                    return
                if mapping:
                    ev.append({"op": "resm", "ks": [back.get(k, -1) for k in r], "vs": [enc(v) for v in r.values()]})
                else:
                    ev.append({"op": "res", "q": [enc(v) for v in r]})
                return
            if not mapping and not bar and style % 3 == 1:
                args = (x for x in args)
            elif not mapping and not bar and style % 3 == 2 and False:
                args = set(args)
            try:
                if aiter:
                    it = as_completed(args, aiter=True, **kw).__aiter__()
                    while True:
                        await gate_want()
                        try:
                            r = await it.__anext__()
                        except StopAsyncIteration as e:
                            if e.args:      # an awaitable's own exception
                                raise
                            ev.append({"op": "endit"})
                            return
                        report(r)
                else:
                    it = iter(as_completed(args, **kw))
                    while True:
                        await gate_want()
                        try:
                            f = next(it)
                        except StopIteration:
                            ev.append({"op": "endit"})
                            return
                        try:
                            r = await f
                        except Exception as e:
                            if isinstance(e, asyncio.TimeoutError):
                                ev.append({"op": "tmo"})
                            else:
                                ev.append({"op": "fail", "o": enc(e)})
                        else:
                            report(r)
            except Exception as e:
                if isinstance(e, asyncio.TimeoutError):
                    ev.append({"op": "tmo"})
                else:
                    ev.append({"op": "fail", "o": enc(e)})
        torn = []
        task = None
        t0 = loop.time()

        def now():
            return round((loop.time() - t0) * 10)

        async def begin():
            nonlocal task
            for i in range(1, n + 1):
                made[i] = make(i)
            for i in range(1, n + 1):
                if item[i] == "fut":
                    ev.append({"op": "start", "i": i})
            ev.append({"op": "begin", "t": now()})
            task = loop.create_task(consume())
            if kind in ("ac", "acmap"):     # the iteration, and its clock, start with the first request
                permits[0] += 1

        for o in ops:
            op = o["op"]
            if op == "begin":
                await begin()
                if kind in ("ac", "acmap"):
                    await tick(2)
            elif op == "comp":
                i = o["i"]
                if i in same:
                    continue
                if i in gate:
                    finish(i, o["o"])
                else:
                    preset[i] = o["o"]
            elif op == "tick":
                await tick()
            elif op == "settle":
                await settle(loop)
                ev.append({"op": "quiet"})
            elif op == "pull":
                permits[0] += 1
                if wake[0] and not wake[0].done():
                    wake[0].set_result(None)
            elif op == "adv":
                await settle(loop)
                ev.append({"op": "quiet"})
                target = loop._vtime + o["d"] / 10
                loop._vtime = round(target, 6)
                ev.append({"op": "adv", "t": now()})
                await settle(loop)
                ev.append({"op": "quiet"})
        if task is None:
            await begin()
        await settle(loop)
        ev.append({"op": "quiet"})
        free[0] = True
        if wake[0] and not wake[0].done():
            wake[0].set_result(None)
        order = sorted(gate, key=lambda i: (style // i) % 7)
        for r, i in enumerate(order):
            if i in gate and not gate[i].done():
                finish(i, "ret" if (style + i) % 5 else "exc")
                if (style + r) % 2:
                    await settle(loop)
                    ev.append({"op": "quiet"})
        await settle(loop)
        ev.append({"op": "quiet"})
        torn.append(1)
        if item[1] == "fut":
            for g in gate.values():
                if g.done() and not g.cancelled():
                    g.exception()
    guarded(main, ev)
    return cfg, ev


def gath_corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "res" and len(set(e["q"])) > 1:
            yield "order", ev[:i] + [dict(e, q=e["q"][1:] + e["q"][:1])] + ev[i + 1:]
        if e["op"] == "res":
            yield "extra", ev[:i] + [dict(e, q=e["q"] + ["zz"])] + ev[i + 1:]
        if e["op"] == "resm" and len(e["ks"]) > 1:
            yield "swap", ev[:i] + [dict(e, ks=e["ks"][::-1])] + ev[i + 1:]
        if e["op"] == "raise":
            yield "raise", ev[:i] + [dict(e, o="E:Nobody")] + ev[i + 1:]
        if e["op"] == "item":
            yield "value", ev[:i] + [dict(e, o=e["o"] + "x")] + ev[i + 1:]
            if cfg["kind"] == "acmap" and cfg["n"] > 1:
                yield "key", ev[:i] + [dict(e, k=e["k"] % cfg["n"] + 1)] + ev[i + 1:]
            yield "lost", ev[:i] + ev[i + 1:]
        if e["op"] == "tmo":
            yield "early", [x for x in ev if x["op"] != "adv"]
