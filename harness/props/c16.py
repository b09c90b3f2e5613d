"""C16 as_yielded, exhaust_iterator(s)."""
import asyncio
from collections import deque
from ..common import *

MONITOR = "IterMon"
MUST_SEE = ["begin", "made", "eos", "sfail", "want", "item", "endit", "raise", "stop", "out", "task", "fin", "quiet"]
ASSUMPTIONS = ["a consumer that stops early is not followed further (the sources go on in the background)"]


def spec(tier):
    th = tier == "thorough"
    base = dict(MaxSrc=2, MaxItems=3, IKinds={"yield", "exh"}, Joins={True, False}, Queues={True, False}, MaxLen=99, MinEmit=99, W=1, Fails=True, KeepTail=True, Serial=False)
    inv = ["NoClauseViolated"]
    return dict(
        models=[dict(module="IterModel", constants=dict(base, MaxSrc=3 if th else 2, MaxItems=5 if th else 4), invariants=inv, view="View", workers=4),
                dict(module="IterModel", constants=dict(base, KeepTail=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="IterModel", mode="all", constants=dict(base, MaxItems=3 if th else 2), cap=30000 if th else 4000),
              dict(module="IterModel", mode="sim", constants=dict(base, MaxSrc=3, MaxItems=9, MinEmit=22, W=4), num=12000 if th else 3000, depth=23),
              dict(module="IterModel", mode="sim", constants=dict(base, MaxSrc=5, MaxItems=20, MinEmit=45, W=8, IKinds={"yield"}), num=6000 if th else 900, depth=46)])


class Weird:
    """falsy, and equal to everything"""
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


class AIter:
    def __init__(self, g):
        self.g = g

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await self.g.__anext__()


class AIterable:
    def __init__(self, g):
        self.g = g

    def __aiter__(self):
        return self.g


def drive(script):
    import a_sync
    from a_sync.utils.iterators import as_yielded, exhaust_iterator, exhaust_iterators
    cfg, ops = script[0], script[1:]
    ev = []
    style = shash(script)
    n, join, useq, kind = cfg["n"], cfg["join"], cfg["queue"], cfg["kind"]

    async def main(loop):
        items, taps, cnt, torn = [], {i: deque() for i in range(1, n + 1)}, {i: 0 for i in range(1, n + 1)}, []
        waits = {}
        pool = [None, False, 0, "", (), 1.5, ValueError("item"), StopAsyncIteration, Weird(), [], {}, b"", asyncio.CancelledError("item"), 7, object(), "x", StopIteration("item")]

        def thing(x):
            k = style + len(items)
            v = pool[k % len(pool)]
            if any(v is y for y, _ in items) or style % 4 == 0:
                v = ("i", x)
            items.append((v, x))
            return v

        def back(v):
            for y, x in items:
                if y is v:
                    return x
            for y, x in items:
                if type(y) is type(v) is tuple and y == v:
                    return x
            return 9999

        async def source(i):
            while True:
                while not taps[i]:
                    waits[i] = loop.create_future()
                    await waits[i]
                o = taps[i].popleft()
                if o == "eos":
                    ev.append({"op": "eos", "i": i})
                    return
                if o == "sfail":
                    e = [Boom("s%d" % i), KeyError(i), ValueError(i), asyncio.CancelledError()][(style + i) % 4]
                    ev.append({"op": "sfail", "i": i, "o": how(e)})
                    raise e
                cnt[i] += 1
                x = i * 100 + cnt[i]
                v = thing(x)
                ev.append({"op": "made", "x": x})
                yield v

        def src(i):
            g = source(i)
            return [g, AIter(g), AIterable(g), a_sync.ASyncIterator.wrap(g)][(style // (i + 1)) % 4]

        def feed(i, o):
            taps[i].append(o)
            if i in waits and not waits[i].done():
                waits[i].set_result(None)
        permits, wake, free, stop = [0], [None], [False], [False]
        queue = [None]
        state = {"over": False}

        async def merged():
            try:
                it = as_yielded(*[src(i) for i in range(1, n + 1)])
                while True:
                    while not permits[0] and not free[0]:
                        wake[0] = loop.create_future()
                        await wake[0]
                        wake[0] = None
                        if stop[0]:
                            await it.aclose()
                            return
                    if not free[0]:
                        permits[0] -= 1
                    ev.append({"op": "want"})
                    try:
                        v = await it.__anext__()
                    except StopAsyncIteration:
                        ev.append({"op": "endit"})
                        return
                    ev.append({"op": "item", "x": back(v)})
            except BaseException as e:
                if not torn:
                    ev.append({"op": "raise", "o": how(e)})
            finally:
                state["over"] = True

        async def exhaust():
            try:
                if useq:
                    queue[0] = [a_sync.Queue, asyncio.Queue, a_sync.Queue][style % 3]()
                srcs = [src(i) for i in range(1, n + 1)]
                if n == 1 and style % 2 and not join:
                    await (exhaust_iterator(srcs[0], queue=queue[0]) if useq else exhaust_iterator(srcs[0]))
                else:
                    kw = {}
                    if useq:
                        kw["queue"] = queue[0]
                    if join or style % 3 == 0:
                        kw["join"] = join
                    await exhaust_iterators(srcs, **kw)
                ev.append({"op": "fin"})
            except BaseException as e:
                if not torn:
                    ev.append({"op": "raise", "o": how(e)})
            finally:
                state["over"] = True
        task = None

        def marker(v):
            return type(v).__name__ == "_Done"
        taken = [0]

        def asleep():
            for e in reversed(ev):
                if e["op"] in ("item", "endit", "raise"):
                    return False
                if e["op"] == "want":
                    return True
            return False

        def out():
            if queue[0] is None or queue[0].empty():
                return False
            v = queue[0].get_nowait()
            taken[0] += 1
            if not marker(v):
                ev.append({"op": "out", "x": back(v)})
            return True

        def quiet():
            ev.append({"op": "quiet", "drained": not useq or queue[0] is None or queue[0].empty()})

        def begin():
            nonlocal task
            ev.append({"op": "begin"})
            task = loop.create_task(merged() if kind == "yield" else exhaust())

        for i, o in enumerate(ops):
            op = o["op"]
            if op == "begin":
                begin()
                await tick(style % 5)
            elif op in ("prod", "eos", "sfail"):
                feed(o["i"], op)
            elif op == "pull":
                permits[0] += 1
                if wake[0] and not wake[0].done():
                    wake[0].set_result(None)
            elif op == "stop":
                if wake[0] and not wake[0].done() and not state["over"]:
                    stop[0] = True
                    ev.append({"op": "stop"})
                    wake[0].set_result(None)
                elif kind == "yield" and task is not None and not state["over"] and asleep():
                    ev.append({"op": "stop"})
                    torn.append(1)
                    task.cancel()
            elif op == "out":
                out()
            elif op == "task":
                if taken[0]:
                    taken[0] -= 1
                    ev.append({"op": "task"})
                    queue[0].task_done()
            r = (style >> (i % 19)) % 4
            if op == "tick" or r == 3:
                await settle(loop)
                quiet()
            else:
                await tick(r)
        if task is None:
            begin()
        await settle(loop)
        quiet()
        for i in taps:
            feed(i, "eos")
            if style % 2:
                await settle(loop)
                quiet()
        free[0] = True
        if wake[0] and not wake[0].done():
            wake[0].set_result(None)
        await settle(loop)
        if kind == "exh":
            while out():
                pass
            await settle(loop)
            quiet()
            while taken[0]:
                taken[0] -= 1
                ev.append({"op": "task"})
                queue[0].task_done()
        await settle(loop)
        quiet()
        torn.append(1)
    guarded(main, ev)
    if style % 7 == 0:
        async def bad(loop):
            try:
                await exhaust_iterators([], join=True)
            except ValueError:
                return
            ev.append({"op": "escaped", "how": "join without a queue accepted", "at": ""})
        run(bad)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] in ("item", "out"):
            yield "twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "item" and not any(x["op"] == "stop" for x in ev):
            yield "lost", ev[:i] + ev[i + 1:]
        if e["op"] == "endit":
            yield "early", [x for j, x in enumerate(ev) if not (x["op"] == "eos")]
        if e["op"] == "raise":
            yield "raise", ev[:i] + [dict(e, o="E:Nobody")] + ev[i + 1:]
            yield "silent", ev[:i] + [{"op": "endit"}] + ev[i + 1:]
        if e["op"] == "fin" and cfg["join"] and any(x["op"] == "made" for x in ev):
            yield "unjoined", [x for x in ev[:i] if x["op"] != "task"] + ev[i:]
