"""C04 CounterLock and CounterLockCluster."""
import asyncio
from ..common import *

MONITOR = "CounterMon"
MUST_SEE = ["start", "got", "end", "cancel", "set", "q", "quiet"]


def spec(tier):
    th = tier == "thorough"
    one = dict(NTasks=3, Starts={0}, Vals={0, 1, 2}, NLocks=1, MaxLen=99, MinEmit=99, W=1, PopAll=True)
    two = dict(one, NTasks=2, NLocks=2, Vals={0, 1, 2})
    inv = ["NoClauseViolated", "HeapAbove"]
    return dict(
        models=[dict(module="CounterModel", constants=dict(one, NTasks=4 if th else 3, Vals={0, 1, 2, 3}), invariants=inv, view="View"),
                dict(module="CounterModel", constants=dict(two, NTasks=3 if th else 2), invariants=inv, view="View"),
                dict(module="CounterModel", constants=dict(one, PopAll=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="CounterModel", mode="all", constants=one, cap=20000 if th else 4000),
              dict(module="CounterModel", mode="all", constants=two, cap=20000 if th else 3000),
              dict(module="CounterModel", mode="sim", constants=dict(one, NTasks=9, Starts={-4, 0, 3}, Vals=set(range(-5, 9)), MinEmit=30, W=3), num=5000 if th else 1000, depth=32),
              dict(module="CounterModel", mode="sim", constants=dict(two, NTasks=8, NLocks=3, Starts={-1, 0}, Vals=set(range(-2, 6)), MinEmit=30, W=3), num=5000 if th else 1000, depth=32)])


def drive(script):
    from a_sync.primitives.locks.counter import CounterLock, CounterLockCluster
    cfg, ops = script[0], script[1:]
    ev = []
    style = shash(script)

    async def main(loop):
        locks = [CounterLock(start_value=v, name="c%d" % i) if (style >> i) % 2 or v else CounterLock() for i, v in enumerate(cfg["v0"])]
        cluster = CounterLockCluster(locks if style % 2 else iter(locks))
        tasks, done = {}, set()

        async def run(t, ls, v):
            ev.append({"op": "start", "t": t, "ls": ls, "v": v})
            done.discard(t)
            try:
                if len(ls) == 1 and (len(locks) > 1 or style % 3):
                    r = await locks[ls[0] - 1].wait_for(v)
                else:
                    r = await cluster.wait_for(v)
            except BaseException as e:
                ev.append({"op": "end", "t": t, "how": how(e)})
                return
            ev.append({"op": "got", "t": t, "r": enc(bool(r)) if r == 1 else enc(r)})

        def query(v):
            for i, l in enumerate(locks):
                for w in (v, l.value, l.value + 1):
                    ev.append({"op": "q", "l": i + 1, "v": w, "ready": bool(l.is_ready(w)), "val": l.value})

        for i, o in enumerate(ops):
            op = o["op"]
            if op == "wait":
                tasks[o["t"]] = loop.create_task(run(o["t"], o["ls"], o["v"]))
            elif op == "set":
                l = locks[o["l"] - 1]
                try:
                    if (style + i) % 2:
                        l.set(o["v"])
                    else:
                        l.value = o["v"]
                    r = "ok"
                except Exception as e:
                    r = type(e).__name__
                ev.append({"op": "set", "l": o["l"], "v": o["v"], "r": r, "val": l.value})
            elif op == "cancel":
                t = o["t"]
                if t in tasks and not tasks[t].done() and any(x["op"] == "start" and x["t"] == t for x in ev):
                    ev.append({"op": "cancel", "t": t})
                    tasks[t].cancel()
            elif op == "tick":
                await tick()
            if (style + i) % 6 == 0:
                query(o.get("v", 0))
        await settle(loop)
        ev.append({"op": "quiet"})
        query(1)
        # raise every lock step by step past everything that is awaited
        top = max([o.get("v", 0) for o in ops] + list(cfg["v0"]) + [0]) + 1
        for i, l in enumerate(locks):
            v = l.value
            while v < top:
                v = min(top, v + 1 + style % 3)
                l.set(v)
                ev.append({"op": "set", "l": i + 1, "v": v, "r": "ok", "val": l.value})
                await settle(loop)
                ev.append({"op": "quiet"})
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "got" and i and ev[i - 1]["op"] == "set":
            yield "released one set too early", ev[:i - 1] + [e, ev[i - 1]] + ev[i + 1:]
        if e["op"] == "q":
            yield "is_ready flipped", ev[:i] + [dict(e, ready=not e["ready"])] + ev[i + 1:]
        if e["op"] == "got" and any(x["op"] == "quiet" for x in ev[i:]):
            yield "release dropped", ev[:i] + ev[i + 1:]
