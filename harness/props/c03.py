"""C03 PrioritySemaphore."""
import asyncio
from fractions import Fraction
from ..common import *

MONITOR = "PrioMon"
MUST_SEE = ["start", "got", "end", "cancel", "rel", "quiet", "drain", "probe"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NTasks=4, Permits={1, 2}, Prios={-1, 0, 2}, MaxLen=99, MinEmit=99, W=1, HandOff=True)
    inv = ["NoClauseViolated", "NoIdlePermit"]
    return dict(
        models=[dict(module="PrioModel", constants=dict(base, NTasks=5 if th else 4), invariants=inv, view="View", workers=4),
                dict(module="PrioModel", constants=dict(base, HandOff=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="PrioModel", mode="all", constants=dict(base, NTasks=3, Permits={0, 1, 2}), cap=20000 if th else 5000),
              dict(module="PrioModel", mode="all", constants=dict(base, Permits={1}, Prios={0, 1}), cap=20000 if th else 3000),
              dict(module="PrioModel", mode="sim", constants=dict(base, NTasks=9, Prios={-3, -1, 0, 1, 2, 7}, Permits={1, 2, 3}, MinEmit=36, W=3), num=8000 if th else 1500, depth=38)])


# what the model's priorities look like to the code: any numbers in the same order (-1 is the default priority)
SCALES = [lambda p: p, lambda p: p, lambda p: -1 + (p + 1) / 4, lambda p: -1 + (p + 1) * 2 ** 40, lambda p: p if p % 2 else p + 0.5, lambda p: Fraction(2 * p - 1, 3)]


def drive(script):
    from a_sync.primitives.locks.prio_semaphore import PrioritySemaphore
    cfg, ops = script[0], script[1:]
    ev = []
    style = shash(script)

    async def main(loop):
        sem = PrioritySemaphore(cfg["n"], name="p")
        scale = SCALES[style // 7 % len(SCALES)]
        early = {p: sem[scale(p)] for p in (2, 0, -1, 1)} if style % 3 == 0 else {}
        tasks, go, started = {}, {}, set()

        def manager(t, p):
            """The context manager a user would hold: early, fresh, or the semaphore itself for the top priority."""
            if p == -1 and (style + t) % 2:
                return sem if (style + t) % 4 == 1 else sem[None]
            if p in early:
                return early[p]
            m = sem[scale(p)]
            if (style + t) % 5 == 0:
                early[p] = m
            return m

        async def run(t, m, explicit):
            try:
                ev.append({"op": "start", "t": t, "p": prio[t]})
                started.add(t)
                if explicit:
                    r = await m.acquire()
                    ev.append({"op": "got", "t": t, "r": enc(r)})
                    go[t] = loop.create_future()
                    try:
                        await go[t]
                    except asyncio.CancelledError:
                        pass
                    ev.append({"op": "rel"})
                    m.release()
                else:
                    async with m:
                        ev.append({"op": "got", "t": t, "r": "True"})
                        go[t] = loop.create_future()
                        try:
                            await go[t]
                        finally:
                            ev.append({"op": "rel"})
            except BaseException as e:
                if t not in go:
                    ev.append({"op": "end", "t": t, "how": how(e)})
        prio = {}

        async def probe():
            # a newcomer of the worst priority
            locked = sem.locked()
            c = sem[scale(99)]
            waited = await try_now(c.acquire())
            ev.append({"op": "probe", "locked": bool(locked), "waited": waited})
            if not waited:
                c.release()

        for i, o in enumerate(ops):
            op = o["op"]
            if op == "acq":
                t = o["t"]
                prio[t] = o["p"]
                tasks[t] = loop.create_task(run(t, manager(t, o["p"]), (style + 3 * t) % 4 < 2))
            elif op == "rel":
                if o["t"] in go and not go[o["t"]].done():
                    go[o["t"]].set_result(None)
            elif op == "cancel":
                t = o["t"]
                if t in tasks and not tasks[t].done():
                    ev.append({"op": "cancel", "t": t})
                    tasks[t].cancel()
            elif op == "tick":
                await tick()
            if (style + i) % 7 == 0:
                await probe()
        await settle(loop)
        ev.append({"op": "quiet"})
        if style % 2:
            # the rest is served to the end: every holder releases, one at a time
            for _ in range(len(tasks) + 1):
                for t in list(go):
                    if not go[t].done():
                        go[t].set_result(None)
                        break
                await settle(loop)
                ev.append({"op": "quiet"})
        for t, task in tasks.items():
            if t in started and t not in go and not task.done():
                ev.append({"op": "cancel", "t": t})
                task.cancel()
        await settle(loop)
        ev.append({"op": "quiet"})
        n = 0
        while n < 50 and not await try_now(sem[scale(n % 3)].acquire()):
            n += 1
        ev.append({"op": "drain", "n": n})
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "drain":
            yield "permit lost", ev[:i] + [dict(e, n=e["n"] - 1)] + ev[i + 1:]
        if e["op"] == "got" and i > 0 and ev[i - 1]["op"] != "start":
            other = [x["t"] for x in ev[:i] if x["op"] == "start" and x["t"] != e["t"]]
            if other:
                yield "another task got it", ev[:i] + [dict(e, t=other[-1])] + ev[i + 1:]
