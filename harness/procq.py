"""Driver shared by C07 and C08: ProcessingQueue and PriorityProcessingQueue under script control."""
import asyncio, gc
from .common import *


class NoLess:
    """An argument that refuses to be compared or hashed."""
    def __init__(self, j):
        self.j = j

    def __lt__(self, o):
        raise RuntimeError("arguments were compared")
    __gt__ = __le__ = __ge__ = __lt__
    __hash__ = None


def shape(j, style):
    r = (style + j) % 5
    return [((j,), {}), ((j, NoLess(j)), {}), ((), {"x": j}), ((NoLess(j), j), {"k": j, "fn": None}), ((j, j), {"func": 1, "name": j})][r]


def aenc(args, kwargs):
    f = lambda v: "N%d" % v.j if isinstance(v, NoLess) else repr(v)
    return "(" + ",".join(map(f, args)) + ";" + ",".join("%s=%s" % (k, f(v)) for k, v in sorted(kwargs.items())) + ")"


def drive_proc(script, prio):
    from a_sync.primitives.queue import ProcessingQueue, PriorityProcessingQueue
    cfg, ops = dict(script[0]), script[1:]
    ev = []
    style = shash(script)
    futs_on = style % 5 != 0
    cfg["futs"] = futs_on
    exc_types = [Boom, KeyError, asyncio.InvalidStateError, ValueError, TimeoutError]

    async def main(loop):
        jobs, futs, kinds, byargs, putters = {}, {}, {}, {}, []
        n, njoin = [0], [0]
        running = {}

        def outcome(j, kind):
            """what the function does"""
            if kind == "exc":
                return None, exc_types[(style + j) % 5](j)
            return [("r", j), None, 0, False][(style + 3 * j) % 4], None

        def finish(j, kind):
            r, e = outcome(j, kind)
            ev.append({"op": "end", "j": j, "o": "%d " % j + enc(e if e is not None else r)})
            if e is not None:
                raise e
            return r

        async def func(*args, **kwargs):
            a = aenc(args, kwargs)
            j = byargs.get(a, 0)
            ev.append({"op": "start", "j": j, "a": a})
            if kinds.get(j, "ret") == "hold":
                running[j] = loop.create_future()
                try:
                    kind = await running[j]
                except asyncio.CancelledError:
                    ev.append({"op": "kill", "j": j})
                    raise
                running.pop(j)
            else:
                kind = kinds.get(j, "ret")
            if (style + j) % 11 == 0 and n[0] < 40 and not closed[0]:      # a job that submits another one
                submit(0, "ret", 0)
            return finish(j, kind)

        closed = [False]
        args = dict(return_data=futs_on)
        if style % 2:
            args["name"] = "q"
        if futs_on and style % 3:
            args.pop("return_data")
        if style % 7 == 3:
            import functools
            f = functools.partial(func)
            f.__name__ = "partial"
            f.__qualname__ = "partial"
        else:
            f = func
        q = (PriorityProcessingQueue if prio else ProcessingQueue)(f, cfg["nw"], **args)

        def done(j):
            def cb(fut):
                if fut.cancelled():
                    o = "cancelled"
                elif fut.exception() is not None:
                    o = "%d " % j + enc(fut.exception())
                else:
                    o = "%d " % j + enc(fut.result())
                ev.append({"op": "fut", "j": j, "o": o})
            return cb

        def got(j, fut):
            if fut is None:
                ev.append({"op": "got", "j": j, "r": "none"})
                return
            if not isinstance(fut, asyncio.Future):
                ev.append({"op": "got", "j": j, "r": type(fut).__name__})
                return
            ev.append({"op": "got", "j": j, "r": "fut"})
            if fut.done():
                done(j)(fut)
            else:
                fut.add_done_callback(done(j))
                if (style + j) % 6 != 1:
                    futs[j] = fut        # else: the caller drops it
        def submit(how_, kind, p):
            n[0] += 1
            j = n[0]
            kinds[j] = kind
            ar, kw = shape(j, style)
            byargs[aenc(ar, kw)] = j
            e = {"op": "sub", "j": j, "p": p if prio else 0, "a": aenc(ar, kw)}
            if prio:
                pv = [p, p / 2, (p, "x"), "abcdefgh"[p + 3]][style % 4]
                ar = (pv,) + ar
            async def put():
                ev.append(e)
                try:
                    fut = await q.put(*ar, **kw)
                except Exception as x:
                    ev.append({"op": "got", "j": j, "r": type(x).__name__})
                else:
                    got(j, fut)
            if how_ == 2:
                putters.append(loop.create_task(put()))
            else:
                ev.append(e)
                try:
                    fut = q.put_nowait(*ar, **kw) if how_ == 0 else q(*ar, **kw)
                except Exception as x:
                    ev.append({"op": "got", "j": j, "r": type(x).__name__})
                else:
                    got(j, fut)

        async def join():
            njoin[0] += 1
            j = njoin[0]
            ev.append({"op": "jstart", "j": j})
            await q.join()
            ev.append({"op": "jdone", "j": j})

        joins = []
        for i, o in enumerate(ops):
            op = o["op"]
            if op == "put":
                submit((style + i) % 3, o["k"], o["p"])
            elif op == "fin":
                if o["j"] in running and not running[o["j"]].done():
                    running[o["j"]].set_result(o["k"])
            elif op == "fcancel":
                f = futs.get(o["j"])
                if f is not None and not f.done():
                    ev.append({"op": "fcancel", "j": o["j"]})
                    f.cancel()
            elif op == "close":
                ev.append({"op": "close"})
                closed[0] = True
                q.close()
            elif op == "join":
                joins.append(loop.create_task(join()))
            elif op == "tick":
                await tick()
        for r in range(200):
            await settle(loop)
            ev.append({"op": "quiet"})
            left = [j for j in running if not running[j].done()]
            if not left:
                break
            running[left[(style + r) % len(left)]].set_result("exc" if (style + r) % 4 == 0 else "ret")
        if style % 3 == 0 and not closed[0]:
            submit(0, "ret", 1)
        joins.append(loop.create_task(join()))
        if style % 3 == 1 and not closed[0]:
            submit(0, "ret", 1)
            submit(0, "exc", 1)
        await settle(loop)
        ev.append({"op": "quiet"})
    guarded(main, ev)
    return cfg, ev
