"""C05 Event."""
import asyncio
from ..common import *

MONITOR = "EventMon"
MUST_SEE = ["start", "got", "end", "cancel", "set", "clear", "q", "quiet"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NTasks=3, MaxFlips=3, MaxLen=99, MinEmit=99, W=1, WakeEach=True)
    inv = ["NoClauseViolated", "WaitersListed"]
    return dict(
        models=[dict(module="EventModel", constants=dict(base, NTasks=4, MaxFlips=5 if th else 4), invariants=inv, view="View"),
                dict(module="EventModel", constants=dict(base, WakeEach=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="EventModel", mode="all", constants=base, cap=20000 if th else 6000),
              dict(module="EventModel", mode="sim", constants=dict(base, NTasks=9, MaxFlips=12, MinEmit=34, W=3), num=8000 if th else 1500, depth=36)])


def drive(script):
    from a_sync.primitives.locks import Event
    cfg, ops = script[0], script[1:]
    ev = []
    style = shash(script)

    async def main(loop):
        e = Event(name="e") if style % 2 else Event()
        tasks = {}

        async def run(t):
            ev.append({"op": "start", "t": t})
            try:
                r = await e.wait()
            except BaseException as x:
                ev.append({"op": "end", "t": t, "how": how(x)})
                return
            ev.append({"op": "got", "t": t, "r": enc(r)})

        def act(op):
            ev.append({"op": op})
            getattr(e, op)()
            ev.append({"op": "q", "isset": bool(e.is_set())})

        for i, o in enumerate(ops):
            op = o["op"]
            if op == "wait":
                tasks[o["t"]] = loop.create_task(run(o["t"]))
            elif op in ("set", "clear"):
                act(op)
            elif op == "cancel":
                t = o["t"]
                if t in tasks and not tasks[t].done() and any(x["op"] == "start" and x["t"] == t for x in ev):
                    ev.append({"op": "cancel", "t": t})
                    tasks[t].cancel()
            elif op == "tick":
                await tick()
        await settle(loop)
        ev.append({"op": "quiet"})
        if style % 3:
            act("set")
            if style % 3 == 1:
                act("clear")
            await settle(loop)
            ev.append({"op": "quiet"})
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "got":
            yield "wake-up dropped", ev[:i] + ev[i + 1:]
            sets = [k for k in range(i) if ev[k]["op"] == "set"]
            st = [k for k in range(i) if ev[k]["op"] == "start" and ev[k]["t"] == e["t"]]
            if sets and st and all(ev[k]["op"] not in ("set",) for k in range(sets[0])) and st[0] < sets[0]:
                yield "woken before set", ev[:sets[0]] + [e] + ev[sets[0]:i] + ev[i + 1:]
        if e["op"] == "q":
            yield "is_set flipped", ev[:i] + [dict(e, isset=not e["isset"])] + ev[i + 1:]
