"""C09 SmartProcessingQueue."""
import asyncio, gc, weakref
from ..common import *

MONITOR = "SmartMon"
MUST_SEE = ["sub", "aw", "awend", "tcancel", "fcancel", "drop", "dead", "start", "end", "fut", "jstart", "jdone", "close", "quiet"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NCalls=3, NKeys=2, NWs={1}, NTasks=2, Kinds={"hold"}, MaxLen=99, MinEmit=99, W=1, ByWaiters=True, Skip={"join"})
    inv = ["NoClauseViolated", "OnePerKey"]
    return dict(
        models=[dict(module="SmartModel", constants=dict(base, NTasks=1, Skip={"join"} if th else {"join", "close", "fcancel"}), invariants=inv, view="View", workers=4),
                dict(module="SmartModel", constants=dict(base, NCalls=3 if th else 2, NKeys=2 if th else 1, NTasks=2), invariants=inv, view="View", workers=4),
                dict(module="SmartModel", constants=dict(base, ByWaiters=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="SmartModel", mode="all", constants=dict(base, NTasks=1, NCalls=3 if th else 2, Skip=set()), cap=60000 if th else 4000),
              dict(module="SmartModel", mode="sim", constants=dict(base, NCalls=8, NKeys=4, NWs={1, 2}, NTasks=6, Kinds={"hold", "ret", "exc"}, MinEmit=30, W=8, Skip=set()), num=15000 if th else 3500, depth=31),
              dict(module="SmartModel", mode="sim", constants=dict(base, NCalls=16, NKeys=6, NWs={1, 2}, NTasks=12, MinEmit=60, W=14, Skip=set()), num=4000 if th else 700, depth=61)])


class Arg:
    """Equal and equally hashed for one key, but each remembers the call it was made for."""
    def __init__(self, k, n):
        self.k, self.n = k, n

    def __eq__(self, o):
        return isinstance(o, Arg) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


def find(x):
    if isinstance(x, Arg):
        return x
    if isinstance(x, tuple):
        return next((y for y in map(find, x) if y is not None), None)


def drive(script):
    from a_sync.primitives.queue import SmartProcessingQueue
    from a_sync._smart import shield, set_smart_task_factory
    cfg, ops = script[0], script[1:]
    ev = []
    style = shash(script)
    exc_types = [Boom, KeyError, asyncio.InvalidStateError, ValueError, TimeoutError]

    async def main(loop):
        if style % 5 == 2:
            set_smart_task_factory(loop)
        slots, refs, kinds, running, waiters, joins = {}, {}, {}, {}, {}, []
        users = {}          # future number -> number of unfinished waiter tasks
        direct = {}
        limbo, njoin = set(), [0]
        n = [0]

        def bury(force=False):
            for m in sorted(limbo):
                if refs[m]() is None or force:
                    limbo.discard(m)
                    ev.append({"op": "dead", "n": m})

        def released(m):
            if m not in slots and not users.get(m) and m not in limbo and refs[m]() is not None or (m not in slots and not users.get(m) and m not in limbo and m not in gone):
                gone.add(m)
                limbo.add(m)
                ev.append({"op": "drop", "n": m})
        gone = set()

        def out(m, kind):
            if kind == "exc":
                e = exc_types[(style + m) % 5](m)
                return None, e, "%d " % m + enc(e)
            r = [("r", m), None, 0, False][(style + 3 * m) % 4]
            return r, None, "%d " % m + enc(r)

        async def func(*args, **kwargs):
            bury()
            m = find(args + tuple(kwargs.values())).n
            ev.append({"op": "start", "n": m})
            kind = kinds[m]
            if kind == "hold":
                running[m] = loop.create_future()
                try:
                    kind = await running[m]
                except asyncio.CancelledError:
                    ev.append({"op": "kill", "m": m})
                    raise
                del running[m]
            r, e, o = out(m, kind)
            ev.append({"op": "end", "n": m, "o": o})
            if e is not None:
                raise e
            return r

        q = SmartProcessingQueue(func, cfg["nw"], **({"name": "q"} if style % 2 else {}))

        def tag(o, m):
            return o if o == "cancelled" else "%d " % m + o

        def fdone(m):
            def cb(fut):
                ev.append({"op": "fut", "n": m, "o": "cancelled" if fut.cancelled() else
                           "%d " % m + enc(fut.exception() if fut.exception() is not None else fut.result())})
            return cb

        async def waiter(t, m, sh):
            fut = slots[m]
            ev.append({"op": "aw", "t": t, "n": m})
            users[m] = users.get(m, 0) + 1
            try:
                try:
                    r = await (shield(fut) if sh else fut)
                except BaseException as e:
                    o = "cancelled" if isinstance(e, asyncio.CancelledError) else "%d " % m + enc(e)
                    e = None
                else:
                    o = "%d " % m + enc(r)
            finally:
                users[m] -= 1
            ev.append({"op": "awend", "t": t, "o": o})
            fut = r = None
            if m not in slots:
                released(m)

        def args_for(k, i):
            if style % 3 == 1:      # the same values, distinguished only by how they are passed
                a = Arg(0, i)
                return [((a,), {}), ((), {"x": a}), ((("x", a),), {}), ((a, a), {}), ((), {"x": a, "y": a} if (style + i) % 2 else {"y": a, "x": a}), ((a,), {"x": a}),
                        (((a, a),), {}), ((), {"y": a}), (("x", a), {}), ((a, ("x", a)), {})][(k + style // 3) % 10]
            a = Arg(k, i)
            r = k % 3
            if r == 0:
                return (a,), {}
            if r == 1:
                return (k,), ({"x": a, "b": 2} if (style + i) % 2 else {"b": 2, "x": a})
            return (a, 1), ({"z": 0, "c": 1, "y": a} if (style + i) % 2 else {"y": a, "z": 0, "c": 1})

        async def put(k, kind, how_):
            n[0] += 1
            i = n[0]
            ar, kw = args_for(k, i)
            kinds[i] = kind
            try:
                fut = await q.put(*ar, **kw) if how_ == 2 else q(*ar, **kw) if how_ == 1 else q.put_nowait(*ar, **kw)
            except Exception as x:
                ev.append({"op": "sub", "n": i, "k": k, "r": 0, "x": type(x).__name__})
                return
            m = getattr(fut, "_num", None)
            if m is None:
                m = fut._num = i
                refs[i] = weakref.ref(fut)
                ev.append({"op": "sub", "n": i, "k": k, "r": m, "x": ""})
                fut.add_done_callback(fdone(i))
            else:
                ev.append({"op": "sub", "n": i, "k": k, "r": m, "x": ""})
                limbo.discard(m)
                gone.discard(m)
            slots[m] = fut

        async def join():
            njoin[0] += 1
            j = njoin[0]
            ev.append({"op": "jstart", "j": j})
            await q.join()
            ev.append({"op": "jdone", "j": j})

        async def quiet():
            await settle(loop)
            for t in [t for t, w in waiters.items() if w.done()]:
                del waiters[t]
            if limbo:
                gc.collect()
                await settle(loop)
            bury(True)
            ev.append({"op": "quiet"})

        for i, o in enumerate(ops):
            op = o["op"]
            bury()
            if op == "put":
                await put(o["key"], o["k"], (style + i) % 3)
            elif op == "aw":
                if o["n"] in slots:
                    direct[o["t"]] = None if o["sh"] else o["n"]
                    waiters[o["t"]] = loop.create_task(waiter(o["t"], o["n"], o["sh"]))
                    await tick()
            elif op == "tcancel":
                w = waiters.get(o["t"])
                if w is not None and not w.done():
                    ev.append({"op": "tcancel", "t": o["t"]})
                    m = direct[o["t"]]
                    if m is not None and refs[m]() is not None and not refs[m]().done():
                        ev.append({"op": "fcancel", "n": m})
                    w.cancel()
            elif op == "fcancel":
                f = slots.get(o["n"])
                if f is not None and not f.done():
                    ev.append({"op": "fcancel", "n": o["n"]})
                    f.cancel()
                f = None
            elif op == "drop":
                if slots.pop(o["n"], None) is not None:
                    released(o["n"])
            elif op == "fin":
                if o["n"] in running and not running[o["n"]].done():
                    running[o["n"]].set_result(o["k"])
            elif op == "close":
                if i > len(ops) // 2:
                    ev.append({"op": "close"})
                    q.close()
            elif op == "join":
                joins.append(loop.create_task(join()))
            elif op == "tick":
                await tick()
                w = f = None
        for r in range(200):
            await quiet()
            left = [m for m in running if not running[m].done()]
            if not left:
                break
            running[left[(style + r) % len(left)]].set_result("exc" if (style + r) % 4 == 0 else "ret")
        joins.append(loop.create_task(join()))
        await quiet()
    gc.disable()
    try:
        guarded(main, ev)
    finally:
        gc.enable()
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "start":
            yield "started twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "dead" and not any(x["op"] == "start" and x["n"] == e["n"] for x in ev):
            yield "dead started", ev[:i + 1] + [{"op": "start", "n": e["n"]}] + ev[i + 1:]
        if e["op"] == "sub" and e["r"] not in (0, e["n"]) and not any(x["op"] == "drop" for x in ev):
            yield "not shared", ev[:i] + [dict(e, r=e["n"])] + ev[i + 1:]
        if e["op"] == "awend" and e["o"] != "cancelled":
            yield "wrong outcome", ev[:i] + [dict(e, o=e["o"] + "x")] + ev[i + 1:]
