"""C02 semaphore-guarded calls, one or two threads."""
import asyncio, gc
from ..common import *

MONITOR = "GuardMon"
MUST_SEE = ["enter", "exit", "out", "cancel", "quiet", "drain", "churn"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NCalls=3, Limits={-1, 1, 2}, Groups={1}, MaxLen=99, MinEmit=99, W=1, ReleaseOnError=True)
    two = dict(base, NCalls=3, Groups={1, 2}, Limits={1})
    inv = ["NoClauseViolated", "Bounded"]
    return dict(
        models=[dict(module="GuardModel", constants=dict(base, NCalls=4 if th else 3), invariants=inv, view="View"),
                dict(module="GuardModel", constants=dict(two, NCalls=4 if th else 3), invariants=inv, view="View"),
                dict(module="GuardModel", constants=dict(base, NCalls=2, ReleaseOnError=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="GuardModel", mode="all", constants=base, cap=20000 if th else 3500),
              dict(module="GuardModel", mode="all", constants=dict(two, NCalls=2, Limits={-1, 1}), cap=8000 if th else 1500),
              dict(module="GuardModel", mode="sim", constants=dict(base, NCalls=8, Limits={-1, 1, 2, 3}, MinEmit=28, W=3), num=4000 if th else 800, depth=30),
              dict(module="GuardModel", mode="sim", constants=dict(two, NCalls=8, Limits={-1, 1, 2}, MinEmit=28, W=3), num=2000 if th else 400, depth=30)])


def drive(script):
    from a_sync.primitives.locks import Semaphore, ThreadsafeSemaphore
    from a_sync.primitives.locks.semaphore import DummySemaphore
    cfg, ops = script[0], script[1:]
    ev = []
    lim, ngroups, style = cfg["lim"], cfg["groups"], shash(script)
    if lim == -1:
        guard = DummySemaphore(name="d" if style % 2 else None)
    elif ngroups == 2 or style % 3 == 0:
        guard = ThreadsafeSemaphore(lim, name="ts")
    else:
        guard = Semaphore(lim, name="s")
    how_used = (style // 3) % 3
    go, tasks, kind = {}, {}, {}
    entered = []

    async def body(c, *, tag):
        if tag in ("drain", "past"):
            entered.append(c)
            await asyncio.get_running_loop().create_future()
        ev.append({"op": "enter", "c": c})
        go[c] = asyncio.get_running_loop().create_future()
        try:
            await go[c]
        finally:
            ev.append({"op": "exit", "c": c})
        if kind[c] == "exc":
            raise Boom(c)
        return (c, tag) if c % 3 else None

    dec = guard(body) if how_used == 0 else guard.decorate(body)

    async def call(c, tag):
        if how_used == 2:
            async with guard:
                return await body(c, tag=tag)
        return await dec(c, tag=tag)

    def want(c):
        return "E:Boom:%d" % c if kind[c] == "exc" else enc((c, "t%d" % c) if c % 3 else None)

    def finished(c):
        def cb(t):
            ev.append({"op": "out", "c": c, "r": "cancelled" if t.cancelled() else enc(t.exception()) if t.exception() else enc(t.result())})
        return cb

    past = []
    if isinstance(guard, ThreadsafeSemaphore) and lim > 0 and style % 4 == 1:
        # a thread which has ended with all its permits taken; the next thread may get its ident
        th = LoopThread()

        async def f(loop):
            past.extend(loop.create_task(call(2000 + i, "past")) for i in range(lim))
            await settle(loop)
        th.do(f)
        th.abandon()
    # threads may have the same name
    threads = {g: LoopThread("t%d" % g if style % 2 else "worker") for g in range(1, ngroups + 1)}
    home = {}
    try:
        for o in ops:
            op = o["op"]
            if op == "call":
                c, g = o["c"], o["g"]
                kind[c], home[c] = o["k"], g

                async def f(loop):
                    ev.append({"op": "call", "c": c, "g": g, "want": want(c)})
                    tasks[c] = loop.create_task(call(c, "t%d" % c))
                    tasks[c].add_done_callback(finished(c))
                threads[g].do(f)
            elif op in ("fin", "cancel"):
                c = o["c"]
                if c not in tasks or tasks[c].done():
                    continue

                async def f(loop):
                    if op == "fin":
                        if c in go and not go[c].done():
                            go[c].set_result(None)
                    else:
                        ev.append({"op": "cancel", "c": c})
                        tasks[c].cancel()
                threads[home[c]].do(f)
            elif op == "tick":
                threads[o["g"]].do(lambda loop: tick())
        for g, th in threads.items():
            th.do(settle)
            ev.append({"op": "quiet", "g": g})

            async def drain(loop):
                for c, t in tasks.items():
                    if home[c] == g and c not in go and not t.done():
                        ev.append({"op": "cancel", "c": c})
                        t.cancel()
                await settle(loop)
                ev.append({"op": "quiet", "g": g})
                entered.clear()
                n = max(lim, 3) + 2
                fresh = [loop.create_task(call(1000 + i, "drain")) for i in range(n)]
                await settle(loop)
                ev.append({"op": "drain", "g": g, "n": len(entered), "tried": n})
                for t in fresh:
                    t.cancel()
                await settle(loop)
            th.do(drain)
    except BaseException as e:
        ev.append(escaped(e))
    ev, real = [], ev
    for th in threads.values():
        try:
            th.close()
        except BaseException as e:
            real.append(escaped(e))
    ev = real
    if style % 40 == 0:
        r = "ok"
        try:
            for i in range(60):
                xs = [Semaphore(1, name="n%d" % i), DummySemaphore("dummy" * (i % 7)), DummySemaphore(), ThreadsafeSemaphore(2, name="x" * i)]
                xs[2].name, repr(xs[1]), repr(xs[0])
                del xs
            gc.collect()
        except Exception as e:
            r = enc(e)
        ev.append({"op": "churn", "r": r})
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "drain" and cfg["lim"] > 0:
            yield "permit lost", ev[:i] + [dict(e, n=e["n"] - 1)] + ev[i + 1:]
        if e["op"] == "enter":
            yield "ran twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "out" and e["r"] != "cancelled":
            yield "other result", ev[:i] + [dict(e, r="other")] + ev[i + 1:]
