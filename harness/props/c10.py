"""C10 SmartFuture, SmartTask, shield, smart task factory."""
import asyncio, contextvars
from ..common import *

MONITOR = "FutMon"
MUST_SEE = ["mk", "aw", "comp", "cancel", "done", "count", "meta", "quiet"]
VAR = contextvars.ContextVar("VAR", default="none")


def spec(tier):
    th = tier == "thorough"
    base = dict(NNodes=4, Kinds={"fut", "task", "plain", "shield"}, MaxLen=99, MinEmit=99, W=1, Filter=True, Isolate=True)
    inv = ["NoClauseViolated"]
    return dict(
        models=[dict(module="FutModel", constants=dict(base, NNodes=5 if th else 4), invariants=inv, view="View", workers=4, heap="8g"),
                dict(module="FutModel", constants=dict(base, Filter=False), invariants=inv, view="View", expect_violation=True, workers=1),
                dict(module="FutModel", constants=dict(base, Isolate=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="FutModel", mode="all", constants=dict(base, NNodes=4 if th else 3, Kinds={"fut", "task", "shield"}), cap=60000 if th else 5000),
              dict(module="FutModel", mode="sim", constants=dict(base, NNodes=8, Kinds={"fut", "pfut", "task", "plain", "shield"}, MinEmit=24, W=10), num=15000 if th else 3000, depth=25),
              dict(module="FutModel", mode="sim", constants=dict(base, NNodes=16, Kinds={"fut", "task", "plain", "shield"}, MinEmit=50, W=30), num=4000 if th else 700, depth=51)])


def drive(script):
    from a_sync._smart import SmartFuture, SmartTask, shield, create_future, set_smart_task_factory, smart_task_factory
    cfg, ops = script[0], script[1:]
    ev = []
    style = shash(script)
    factory = style % 3 == 0

    async def main(loop):
        nodes, kinds, seen = {}, {}, set()
        if factory:
            set_smart_task_factory(loop) if style % 2 else set_smart_task_factory()

        def make(k, t):
            x = len(nodes) + 1
            kinds[x] = k
            e = {"op": "mk", "x": x, "kind": k, "tgt": t}
            if k == "shield":
                inner = nodes[t]
                if inner.done():
                    return False
                y = shield(inner)
                ev.append(e)
                nodes[x] = y
                return True
            ev.append(e)
            if k == "fut":
                nodes[x] = [lambda: create_future(loop=loop), lambda: SmartFuture(queue=None, loop=loop), lambda: create_future(),
                            lambda: create_future(key=("k", x), loop=loop)][(style + x) % 4]()
            elif k == "pfut":
                nodes[x] = loop.create_future()
            else:
                want = {}

                async def body():
                    if want:
                        ev.append({"op": "meta", "x": x, "got": asyncio.current_task().get_name() + " " + VAR.get(), "want": want["v"]})
                    ev.append({"op": "aw", "x": x})
                    return await nodes[t]
                name = "T%d" % x
                ctx = contextvars.copy_context()
                ctx.run(VAR.set, "c%d" % x)
                if k == "plain":
                    nodes[x] = asyncio.Task(body(), loop=loop, name=name)
                elif factory:
                    r = (style + x) % 4
                    if r == 0:
                        want["v"] = name + " none"
                        nodes[x] = loop.create_task(body(), name=name)
                    elif r == 1:
                        want["v"] = name + " c%d" % x
                        nodes[x] = loop.create_task(body(), name=name, context=ctx)
                    elif r == 2:
                        want["v"] = name + " none"
                        nodes[x] = asyncio.create_task(body(), name=name)
                    else:
                        nodes[x] = asyncio.ensure_future(body())
                    if type(nodes[x]) is not SmartTask:
                        ev.append({"op": "meta", "x": x, "got": type(nodes[x]).__name__, "want": "SmartTask"})
                else:
                    if (style + x) % 2:
                        want["v"] = name + " none"
                        nodes[x] = SmartTask(body(), loop=loop, name=name)
                    else:
                        nodes[x] = smart_task_factory(loop, body())
            return True

        def outcome(y):
            if y.cancelled():
                return "cancelled"
            return enc(y.exception()) if y.exception() is not None else enc(y.result())

        def observe():
            for x, y in nodes.items():
                if x not in seen and y.done():
                    seen.add(x)
                    ev.append({"op": "done", "x": x, "o": outcome(y)})
            for x, y in nodes.items():
                if kinds[x] in ("fut", "task", "shield"):
                    ev.append({"op": "count", "x": x, "n": y.num_waiters})

        for o in ops:
            op = o["op"]
            if op == "mk":
                if not make(o["k"], o["t"]):
                    break
            elif op == "comp":
                y = nodes[o["x"]]
                if not y.done():
                    if o["o"] == "exc":
                        e = [Boom(o["x"]), ValueError(o["x"]), asyncio.TimeoutError()][(style + o["x"]) % 3]
                        y.set_exception(e)
                        oo = enc(e)
                    else:
                        r = [("r", o["x"]), None, 0, False][(style + o["x"]) % 4]
                        y.set_result(r)
                        oo = enc(r)
                    ev.append({"op": "comp", "x": o["x"], "o": oo})
            elif op == "cancel":
                if not nodes[o["x"]].done():
                    ev.append({"op": "cancel", "x": o["x"]})
                    nodes[o["x"]].cancel()
            elif op == "tick":
                await tick()
            observe()
        for r in range(3):
            await settle(loop)
            observe()
            ev.append({"op": "quiet"})
            for x, y in nodes.items():
                if kinds[x] in ("fut", "pfut") and not y.done() and (r or (style + x) % 2):
                    y.set_result(x)
                    ev.append({"op": "comp", "x": x, "o": enc(x)})
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "count":
            yield "count", ev[:i] + [dict(e, n=e["n"] + 1)] + ev[i + 1:]
        if e["op"] == "done" and e["o"] != "cancelled" and any(x["op"] == "mk" and x["x"] == e["x"] and x["tgt"] for x in ev):
            yield "outcome", ev[:i] + [dict(e, o=e["o"] + "x")] + ev[i + 1:]
        if e["op"] == "done" and not any(x["op"] == "cancel" for x in ev):
            yield "cancelled", ev[:i] + [dict(e, o="cancelled")] + ev[i + 1:]
