"""C08 PriorityProcessingQueue and VariablePriorityQueue."""
import random
from ..procq import *

MONITOR = "ProcMon"
MUST_SEE = ["sub", "got", "start", "end", "fut", "quiet", "vput", "vset", "vget", "vempty"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NJobs=4 if th else 3, NWs={1, 2}, Prios={0, 1}, Kinds={"hold", "ret"}, MaxLen=99, MinEmit=99, W=1, Survive=True)
    inv = ["NoClauseViolated", "WorkerBound"]
    vq = dict(NItems=4 if th else 3, Prios={0, 1, 2}, NGetters=1, MaxLen=99, MinEmit=99, W=1, Reheap=True)
    return dict(
        models=[dict(module="ProcModel", constants=base, invariants=inv, view="View"),
                dict(module="VpqModel", constants=vq, invariants=["NoClauseViolated"], view="View"),
                dict(module="VpqModel", constants=dict(vq, Reheap=False), invariants=["NoClauseViolated"], view="View", expect_violation=True, workers=1)],
        gens=[dict(module="ProcModel", mode="all", constants=dict(base, NJobs=3, NWs={1}, Kinds={"hold"}), cap=60000 if th else 2500),
              dict(module="ProcModel", mode="sim", constants=dict(base, NJobs=9, NWs={1, 2}, Prios={-3, -1, 0, 2, 3}, Kinds={"hold", "ret", "exc"}, MinEmit=28, W=6), num=15000 if th else 2500, depth=29),
              dict(module="ProcModel", mode="sim", constants=dict(base, NJobs=16, NWs={1, 3}, Prios={-1, 0, 2}, Kinds={"hold", "exc"}, MinEmit=55, W=8), num=4000 if th else 500, depth=56),
              dict(module="VpqModel", mode="all", constants=dict(vq, NItems=3), cap=60000 if th else 2500),
              dict(module="VpqModel", mode="sim", constants=dict(vq, NItems=9, Prios={0, 1, 2, 3}, NGetters=3, MinEmit=30, W=4), num=10000 if th else 2000, depth=31)])


class Item:
    def __init__(self, x, p):
        self.x, self.p = x, p

    def __lt__(self, o):
        return self.p < o.p


def drive(script):
    if "vpq" in script[0]:
        return drive_vpq(script)
    return drive_proc(script, True)


def drive_vpq(script):
    from a_sync.primitives.queue import VariablePriorityQueue
    ops = script[1:]
    cfg = dict(nw=1, futs=True, vpq=True)
    ev = []
    style = shash(script)

    async def main(loop):
        q = VariablePriorityQueue() if style % 2 else VariablePriorityQueue(maxsize=0)
        items, getters = {}, []
        gone = set()
        n = [0]

        def took(it):
            gone.add(it.x)
            ev.append({"op": "vget", "x": it.x})

        async def get():
            took(await q.get())

        def waiting():
            ev.append({"op": "vwait", "n": sum(not g.done() for g in getters)})

        def now():
            try:
                it = q.get_nowait()
            except asyncio.QueueEmpty:
                ev.append({"op": "vempty"})
            else:
                took(it)
        for i, o in enumerate(ops):
            op = o["op"]
            if op == "vput":
                n[0] += 1
                it = items[n[0]] = Item(n[0], o["p"])
                ev.append({"op": "vput", "x": it.x, "p": it.p})
                if (style + i) % 2:
                    q.put_nowait(it)
                else:
                    await q.put(it)
            elif op == "vset":
                if o["x"] in items and o["x"] not in gone:
                    items[o["x"]].p = o["p"]
                    ev.append({"op": "vset", "x": o["x"], "p": o["p"]})
            elif op == "vnow":
                now()
            elif op == "vget":
                getters.append(loop.create_task(get()))
            elif op == "gcancel":
                live = [g for g in getters if not g.done()]
                if live:
                    live[(style + i) % len(live)].cancel()
            elif op == "tick":
                await tick()
        await settle(loop)
        waiting()
        ev.append({"op": "quiet"})
        for g in getters:
            g.cancel()
        await settle(loop)
        while not q.empty():
            now()
        now()
        waiting()
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "vget":
            yield "twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "start" and i + 1 < len(ev) and ev[i + 1]["op"] == "start":
            yield "order", ev[:i] + [ev[i + 1], e] + ev[i + 2:]
        if e["op"] == "fut" and e["o"] != "cancelled":
            yield "wrong outcome", ev[:i] + [dict(e, o=e["o"] + "x")] + ev[i + 1:]
