"""C01 Semaphore."""
import asyncio
from ..common import *

MONITOR = "SemMon"
MUST_SEE = ["got", "end", "cancel", "rel", "probe", "quiet", "drain", "neg"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NTasks=3, Permits={0, 1, 2}, MaxLen=99, MaxXrel=1, MinEmit=99, W=1, ReturnPermit=True)
    inv = ["NoClauseViolated", "Conservation"]
    return dict(
        models=[dict(module="SemModel", constants=dict(base, NTasks=5 if th else 4, MaxXrel=2 if th else 1), invariants=inv, view="View"),
                dict(module="SemModel", constants=dict(base, ReturnPermit=False), invariants=["NoClauseViolated"], view="View", expect_violation=True, workers=1)],
        gens=[dict(module="SemModel", mode="all", constants=dict(base), cap=20000 if th else 7000),
              dict(module="SemModel", mode="sim", constants=dict(base, NTasks=7, Permits={0, 1, 2, 3}, MaxLen=30, MaxXrel=3, MinEmit=28, W=3),
                   num=6000 if th else 1500, depth=30)])


def drive(script):
    from a_sync.primitives.locks import Semaphore
    cfg, ops = script[0], script[1:]
    ev = []

    async def main(loop):
        sem = Semaphore(cfg["n"])
        tasks, go = {}, {}
        style = shash(script)

        async def ctx(t):
            try:
                async with sem:
                    ev.append({"op": "got", "t": t, "r": "True"})
                    go[t] = loop.create_future()
                    try:
                        await go[t]
                    finally:
                        ev.append({"op": "rel"})
            except BaseException as e:
                fail(t, e)

        async def acq(t, coro=None):
            try:
                r = await (coro or sem.acquire())
            except BaseException as e:
                return fail(t, e)
            ev.append({"op": "got", "t": t, "r": enc(r)})
            go[t] = loop.create_future()
            try:
                await go[t]
            except asyncio.CancelledError:
                pass
            ev.append({"op": "rel"})
            sem.release()

        got = lambda t: t in go

        def fail(t, e):
            if not got(t):
                ev.append({"op": "end", "t": t, "how": how(e)})

        def ended(t):
            def cb(task):
                if task.cancelled() and not got(t) and not any(x["op"] == "end" and x["t"] == t for x in ev):
                    ev.append({"op": "end", "t": t, "how": "cancelled"})
            return cb

        async def probe():
            locked = sem.locked()
            waited = await try_now(sem.acquire())
            ev.append({"op": "probe", "locked": bool(locked), "waited": waited})
            if not waited:
                sem.release()

        def quiet():
            ev.append({"op": "quiet", "locked": bool(sem.locked())})

        for i, o in enumerate(ops):
            op = o["op"]
            if op == "acq":
                t = o["t"]
                ev.append({"op": "spawn", "t": t})
                k = (style + t) % 3
                c = ctx(t) if k == 0 else acq(t, sem.acquire()) if k == 1 else acq(t)
                tasks[t] = loop.create_task(c)
                tasks[t].add_done_callback(ended(t))
            elif op == "rel":
                if o["t"] in go and not go[o["t"]].done():
                    go[o["t"]].set_result(None)
            elif op == "xrel":
                ev.append({"op": "rel"})
                sem.release()
            elif op == "cancel":
                t = o["t"]
                if t in tasks and not tasks[t].done():
                    ev.append({"op": "cancel", "t": t})
                    tasks[t].cancel()
            elif op == "tick":
                await tick()
            if (style + i) % 5 == 0:
                await probe()
        await settle(loop)
        quiet()
        for t, task in tasks.items():
            if t not in go and not task.done():
                ev.append({"op": "cancel", "t": t})
                task.cancel()
        await settle(loop)
        quiet()
        n = 0
        while n < 50 and not await try_now(sem.acquire()):
            n += 1
        ev.append({"op": "drain", "n": n})
        for v in (-1, -3):
            try:
                Semaphore(v)
                r = "accepted"
            except BaseException as e:
                r = type(e).__name__
            ev.append({"op": "neg", "r": r})
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "drain":
            yield "permit lost", ev[:i] + [dict(e, n=e["n"] - 1)] + ev[i + 1:]
        if e["op"] == "got":
            yield "granted twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "probe":
            yield "locked flipped", ev[:i] + [dict(e, locked=not e["locked"])] + ev[i + 1:]
