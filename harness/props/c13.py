"""C13 create_task: any awaitable, exactly once; persisted exactly until done."""
import asyncio, gc, weakref
from ..common import *

MONITOR = "TaskMon"
MUST_SEE = ["create", "name", "run", "end", "done", "cancel", "cancelall", "drop", "lost", "report", "destroyed", "quiet"]
ASSUMPTIONS = ["a failure is due to be reported, and a finished task to be released, by the next create_task call (the implementation prunes there)"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NTasks=2, Kinds={"coro"}, MaxLen=99, MinEmit=99, W=1, Hold=True, Prune=True)
    sim = dict(base, Kinds={"coro", "fut", "task", "cust", "gather", "asf"})
    inv = ["NoClauseViolated"]
    return dict(
        models=[dict(module="TaskModel", constants=dict(base, NTasks=3, MaxLen=99 if th else 9), invariants=inv, view="View", workers=4, heap="8g"),
                dict(module="TaskModel", constants=dict(base, Hold=False), invariants=inv, view="View", expect_violation=True, workers=1),
                dict(module="TaskModel", constants=dict(base, NTasks=3, Prune=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="TaskModel", mode="all", constants=base, cap=40000 if th else 2500),
              dict(module="TaskModel", mode="sim", constants=dict(sim, NTasks=4, MinEmit=20, W=2), num=10000 if th else 1500, depth=21),
              dict(module="TaskModel", mode="sim", constants=dict(sim, NTasks=10, MinEmit=45, W=5), num=6000 if th else 700, depth=46)])


FROZEN = []


class Custom:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


def drive(script):
    from a_sync.asyncio import create_task
    from a_sync._smart import set_smart_task_factory
    from a_sync.exceptions import PersistedTaskException
    cfg, ops = script[0], script[1:]
    ev = []
    if not FROZEN:
        FROZEN.append(1)
        gc.collect()
        gc.freeze()
    style = shash(script)

    async def main(loop):
        if style % 5 == 1:
            set_smart_task_factory(loop)
        elif style % 5 == 2:
            loop.set_task_factory(asyncio.eager_task_factory)
        strong, weak, gate, pend, seen, lost, ran, names, gone = {}, {}, {}, {}, set(), set(), set(), {}, set()

        def handler(lp, ctx):
            e = ctx.get("exception")
            if isinstance(e, PersistedTaskException):
                ev.append({"op": "report", "t": next((t for t, r in weak.items() if r() is e.task), -1)})
            elif "destroyed" in ctx.get("message", ""):
                ev.append({"op": "destroyed", "t": names.get(ctx["task"].get_name(), -1)})
        loop.set_exception_handler(handler)

        def gated(t):
            """what the awaitable does: waits for its gate (held weakly by the driver)"""
            async def body():
                ev.append({"op": "run", "t": t})
                f = loop.create_future()
                gate[t] = weakref.ref(f)
                if t in pend:
                    f.set_result(pend[t])
                try:
                    r = await f
                except asyncio.CancelledError:
                    ev.append({"op": "end", "t": t, "o": "cancelled", "f": False})
                    raise
                gone.add(t)
                if r == "exc":
                    e = [Boom, ValueError, RuntimeError][(style + t) % 3](t)
                    ev.append({"op": "end", "t": t, "o": enc(e), "f": True})
                    raise e
                r = [("r", t), None, 0][(style + t) % 3]
                ev.append({"op": "end", "t": t, "o": enc(r), "f": False})
                return r if kinds[t] != "gather" else r
            return body()
        kinds = {}

        def create(k, p):
            t = len(weak) + 1
            kinds[t] = k
            kw = {}
            if p:
                kw["skip_gc_until_done"] = True
            quiet = (style + t) % 3 == 0
            if quiet:
                kw["log_destroy_pending"] = False
            if (style + t) % 4:
                kw["name"] = "name %d" % t
            ev.append({"op": "create", "t": t, "p": p, "q": quiet})
            a = gated(t)
            if k == "task":
                a = asyncio.ensure_future(a)
            elif k == "cust":
                a = Custom(a)
            elif k == "gather":
                a = asyncio.gather(a)
            elif k == "asf":
                from a_sync import ASyncFuture
                a = ASyncFuture(a)
            elif k == "fut":
                inner = loop.create_task(a)
                a = loop.create_future()
                r = weakref.ref(a)

                def copy(i, r=r):
                    f = r()
                    if f is None or f.done():
                        i.cancelled() or i.exception()
                        return
                    f.cancel() if i.cancelled() else f.set_exception(i.exception()) if i.exception() else f.set_result(i.result())
                inner.add_done_callback(copy)
                if t not in ran:
                    keepin[t] = inner
            task = create_task(a, **kw)
            del a
            if "name" in kw:
                ev.append({"op": "name", "t": t, "got": task.get_name(), "want": kw["name"]})
            names[task.get_name()] = t
            strong[t] = task
            weak[t] = weakref.ref(task)
        keepin = {}

        def outcome(y, t):
            if y.cancelled():
                return "cancelled"
            if y.exception() is not None:
                return enc(y.exception())
            return enc(y.result()[0] if kinds[t] == "gather" else y.result())

        def observe():
            for t, r in weak.items():
                y = r()
                if y is not None and y.done() and t not in seen:
                    seen.add(t)
                    ev.append({"op": "done", "t": t, "o": outcome(y, t)})
                    keepin.pop(t, None)
                del y

        for i, o in enumerate(ops):
            op = o["op"]
            if op == "create":
                create(o["k"], o["p"])
            elif op == "comp":
                t = o["t"]
                if t in gate:
                    f = gate[t]()
                    if f is not None and not f.done():
                        f.set_result(o["o"])
                    del f
                else:
                    pend[t] = o["o"]
            elif op == "drop":
                ev.append({"op": "drop", "t": o["t"]})
                strong.pop(o["t"], None)
            elif op == "cancel":
                t = o["t"]
                if t in strong and not strong[t].done():
                    ev.append({"op": "cancel", "t": t})
                    gone.add(t)
                    strong[t].cancel()
            elif op == "cancelall":
                ev.append({"op": "cancelall"})
                gone.update(weak)
                for x in asyncio.all_tasks(loop):
                    if x is not asyncio.current_task():
                        x.cancel()
                x = None
            elif op == "tick":
                await tick()
            elif op == "settle":
                await settle(loop)
            observe()
            if op == "settle":
                ev.append({"op": "quiet"})
            if op == "gc":
                gc.collect()
                for t, r in weak.items():
                    if t not in strong and t not in lost:
                        if r() is None:
                            if t in seen or t in gone:
                                continue
                            lost.add(t)
                            ev.append({"op": "lost", "t": t})
                        elif r() is not None and t in seen:
                            ev.append({"op": "kept", "t": t})
        # end: everything pending completes, then two more create_task calls release and report
        for n in range(3):
            for t in list(gate):
                f = gate[t]()
                if f is not None and not f.done() and (n or (style + t) % 2):
                    f.set_result("exc" if (style + t + n) % 5 == 0 else "ret")
                del f
            await settle(loop)
            gc.collect()
            for t, r in weak.items():
                if t not in strong and t not in lost and t not in seen and t not in gone and r() is None:
                    lost.add(t)
                    ev.append({"op": "lost", "t": t})
            observe()
            ev.append({"op": "quiet"})
            if n == 1:
                for t in strong:
                    ev.append({"op": "drop", "t": t})
                strong.clear()
            create("coro", n == 1)
        await settle(loop)
        gc.collect()
        observe()
        for t, r in weak.items():
            if t not in strong and t in seen and r() is not None:
                ev.append({"op": "kept", "t": t})
        ev.append({"op": "quiet"})
        strong.clear()
        if style % 5 == 2:
            loop.set_task_factory(None)
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "report":
            yield "twice", ev[:i + 1] + [e] + ev[i + 1:]
            if not any(x["op"].startswith("cancel") for x in ev):
                yield "unreported", ev[:i] + ev[i + 1:]
        if e["op"] == "run":
            yield "run twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "done" and e["o"] != "cancelled":
            yield "outcome", ev[:i] + [dict(e, o=e["o"] + "x")] + ev[i + 1:]
        if e["op"] == "name":
            yield "name", ev[:i] + [dict(e, got="z")] + ev[i + 1:]
