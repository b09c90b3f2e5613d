"""C06 Queue."""
import asyncio
from ..common import *

MONITOR = "QueueMon"
MUST_SEE = ["put", "full", "pstart", "pend", "gstart", "gres", "gend", "now", "cancel", "td", "jstart", "jdone", "size", "quiet", "final"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NTasks=3, NItems=3, Sizes={0, 1}, MaxMulti=2, MaxLen=99, MinEmit=99, W=1, PassOn=True, Burst=False)
    inv = ["NoClauseViolated", "Conserved"]
    return dict(
        models=[dict(module="QueueModel", constants=dict(base, NItems=4 if th else 3, NTasks=3), invariants=inv, view="View"),
                dict(module="QueueModel", constants=dict(base, PassOn=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="QueueModel", mode="all", constants=dict(base, NTasks=2, NItems=3, Sizes={0, 1, 2}), cap=30000 if th else 4000),
              dict(module="QueueModel", mode="sim", constants=dict(base, NTasks=7, NItems=12, Sizes={0, 1, 3}, MaxMulti=3, MinEmit=24, W=6), num=12000 if th else 3000, depth=25),
              dict(module="QueueModel", mode="sim", constants=dict(base, NTasks=10, NItems=30, Sizes={0, 2}, MaxMulti=4, MinEmit=45, W=6), num=3000 if th else 500, depth=46),
              dict(module="QueueModel", mode="sim", constants=dict(base, Burst=True, NTasks=8, NItems=12, Sizes={2, 3}, MaxMulti=3, MinEmit=18, W=1), num=12000 if th else 3000, depth=19)])


def drive(script):
    from a_sync.primitives.queue import Queue
    cfg, ops = script[0], script[1:]
    ev = []
    style = shash(script)

    async def main(loop):
        q = Queue(cfg["max"]) if cfg["max"] else Queue()
        tasks, multi, begun = {}, {}, set()
        n = [0]

        def item():
            n[0] += 1
            return n[0]

        async def getter(g, k):
            ev.append({"op": "gstart", "g": g, "k": k[0], "i": k[1], "less": k[2]})
            begun.add(g)
            try:
                if k[0] == "one":
                    r = [await q.get()]
                elif k[0] == "all":
                    r = await q.get_all()
                elif k[2] or (style + g) % 2:
                    r = await q.get_multi(k[1], can_return_less=k[2])
                else:
                    r = await q.get_multi(k[1])
            except BaseException as e:
                ev.append({"op": "gend", "g": g, "how": how(e)})
                return
            ev.append({"op": "gres", "g": g, "r": r})

        async def putter(p, x):
            ev.append({"op": "pstart", "p": p, "x": x})
            begun.add(p)
            try:
                await q.put(x)
            except BaseException as e:
                ev.append({"op": "pend", "p": p, "how": how(e)})
                return
            ev.append({"op": "put", "x": x, "p": p})

        def put_nowait():
            x = item()
            try:
                q.put_nowait(x)
            except asyncio.QueueFull:
                ev.append({"op": "full", "x": x})
            else:
                ev.append({"op": "put", "x": x, "p": 0})

        def now(k):
            r, exc = [], ""
            try:
                if k[0] == "one":
                    r = [q.get_nowait()]
                elif k[0] == "all":
                    r = q.get_all_nowait()
                else:
                    r = q.get_multi_nowait(k[1], can_return_less=k[2]) if k[2] or style % 2 else q.get_multi_nowait(k[1])
            except Exception as e:
                exc = type(e).__name__
            ev.append({"op": "now", "k": k[0], "i": k[1], "less": k[2], "exc": exc, "r": list(r)})

        def size():
            ev.append({"op": "size", "n": q.qsize()})
            ev.append({"op": "size", "n": len(q)})
            if not q:
                ev.append({"op": "size", "n": -1})

        def task_done():
            try:
                q.task_done()
                r = "ok"
            except ValueError:
                r = "ValueError"
            ev.append({"op": "td", "r": r})

        async def join(j):
            ev.append({"op": "jstart", "j": j})
            await q.join()
            ev.append({"op": "jdone", "j": j})

        joins = []
        for i, o in enumerate(ops):
            op = o["op"]
            if op == "get":
                tasks[o["t"]] = loop.create_task(getter(o["t"], o["k"]))
                if o["k"][0] == "multi" and not o["k"][2]:
                    multi[o["t"]] = tasks[o["t"]]
            elif op == "put":
                tasks[o["t"]] = loop.create_task(putter(o["t"], item()))
            elif op == "putn":
                put_nowait()
            elif op == "now":
                now(o["k"])
            elif op == "cancel":
                t = o["t"]
                if t in begun and t not in multi and not tasks[t].done():
                    ev.append({"op": "cancel", "t": t})
                    tasks[t].cancel()
            elif op == "tick":
                await tick()
            r = (style + 7 * i) % 23
            if r == 0:
                size()
            elif r == 1 or r == 2:
                task_done()
            elif r == 3 and len(joins) < 3:
                joins.append(loop.create_task(join(900 + len(joins))))
        await settle(loop)
        ev.append({"op": "quiet"})
        size()
        # let every bulk getter finish, then stop the other waiters and take what is left
        for _ in range(60):
            if all(t.done() for t in multi.values()):
                break
            if not q.full():
                put_nowait()
            await settle(loop)
        ev.append({"op": "quiet"})
        for t, task in tasks.items():
            if not task.done() and t not in multi:
                ev.append({"op": "cancel", "t": t})
                task.cancel()
        await settle(loop)
        ev.append({"op": "quiet"})
        now(["all", 1, False])
        size()
        ev.append({"op": "final", "n": q.qsize()})
        joins.append(loop.create_task(join(999)))
        for _ in range(n[0] + 2):
            task_done()
            await settle(loop)
            ev.append({"op": "quiet"})
            if ev[-2]["op"] == "td" and ev[-2]["r"] != "ok":
                break
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] in ("gres", "now") and len(e["r"]) > 1:
            yield "items swapped", ev[:i] + [dict(e, r=e["r"][::-1])] + ev[i + 1:]
        if e["op"] == "now" and e["exc"] == "" and e["r"] and not any(x["op"] == "gstart" and x["k"] == "multi" for x in ev):
            yield "item lost", ev[:i] + [dict(e, r=e["r"][1:])] + ev[i + 1:]
        if e["op"] == "jdone" and any(x["op"] == "td" for x in ev[:i]) and ev[i - 1]["op"] == "td":
            yield "join too early", ev[:i - 1] + [e, ev[i - 1]] + ev[i + 1:]
