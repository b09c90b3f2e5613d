"""C19 utils.any / utils.all."""
import asyncio, inspect
from ..common import *

MONITOR = "AnyMon"
MUST_SEE = ["begin", "start", "comp", "res", "raise", "gone", "quiet"]
ASSUMPTIONS = ["completions between two quiescent points count as simultaneous when the awaitables are of different kinds",
               "after an exception propagated the remaining awaitables may go on (nothing is promised about them)"]


def spec(tier):
    th = tier == "thorough"
    base = dict(MaxN=3, Fns={"any", "all"}, Items={"same"}, MaxLen=99, MinEmit=99, W=1, Cancels=True)
    inv = ["NoClauseViolated"]
    both = {"same", "mixed"}
    return dict(
        models=[dict(module="AnyModel", constants=dict(base, MaxN=4 if th else 3), invariants=inv, view="View", workers=4),
                dict(module="AnyModel", constants=dict(base, Cancels=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="AnyModel", mode="all", constants=dict(base, Items=both, MaxN=3), cap=60000 if th else 5000),
              dict(module="AnyModel", mode="sim", constants=dict(base, Items=both, MaxN=5, MinEmit=14, W=2), num=12000 if th else 2500, depth=15),
              dict(module="AnyModel", mode="sim", constants=dict(base, Items=both, MaxN=10, MinEmit=26, W=6), num=6000 if th else 1200, depth=27)])


class Truth:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        if isinstance(self.v, Exception):
            raise self.v
        return self.v


class Cust:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


def drive(script):
    import a_sync
    from a_sync import utils
    ops = script[1:]
    style = shash(script)
    n, fn = script[0]["n"], getattr(utils, script[0]["fn"])
    KINDS = ["coro", "fut", "task", "cust", "asf"]
    item = {i: KINDS[style % 5] if script[0]["items"] == "same" else KINDS[(style // (i + 3)) % 5] for i in range(1, n + 1)}
    cfg = dict(script[0], strict=len(set(item.values())) < 2, ex=[i for i in item if item[i] == "asf"])
    ev = []
    true_ = [True, 1, "x", (0,), 2.5, Truth(True), [None]]
    false_ = [False, 0, "", (), 0.0, Truth(False), None]

    async def main(loop):
        gate, preset, made, coros, done = {}, {}, {}, {}, set()
        started, gone, torn = set(), set(), []

        def outcome(i, o):
            if o == "X":
                e = [Boom, ValueError, KeyError, RuntimeError][(style + i) % 4]("%d" % i)
                if (style // 7 + i) % 3 == 0:       # the value's truth fails
                    return False, Truth(e), enc(e)
                return True, e, enc(e)
            return False, (true_ if o == "t" else false_)[(style + i) % 7], o

        def comp(i, o):
            done.add(i)
            ev.append({"op": "comp", "i": i, "o": o})

        async def body(i):
            started.add(i)
            ev.append({"op": "start", "i": i})
            if i not in preset:
                gate[i] = loop.create_future()
                try:
                    o = await gate[i]
                except asyncio.CancelledError:
                    lost(i)
                    if (style + i) % 5 == 0:        # takes a while to clean up
                        await asyncio.sleep(0)
                    raise
            else:
                o = preset[i]
            f, v, t = outcome(i, o)
            comp(i, t)
            if f:
                raise v
            return v

        def lost(i):
            if i not in gone and i not in done and not torn:
                gone.add(i)
                ev.append({"op": "gone", "i": i})

        def finish(i, o):
            g = gate[i]
            if g.done():
                return
            if item[i] == "fut":
                f, v, t = outcome(i, o)
                comp(i, t)
                g.set_exception(v) if f else g.set_result(v)
            else:
                g.set_result(o)

        def make(i):
            k = item[i]
            if k == "fut":
                gate[i] = loop.create_future()
                if i in preset:
                    finish(i, preset[i])
                return gate[i]
            coros[i] = body(i)
            if k == "task":
                return loop.create_task(coros[i])
            if k == "cust":
                return Cust(coros[i])
            if k == "asf":
                return a_sync.ASyncFuture(coros[i])
            return coros[i]

        def quiet():
            for i in made:
                x = made[i]
                if isinstance(x, asyncio.Future) and x.cancelled():
                    lost(i)
                elif i in coros and i not in started and (inspect.getcoroutinestate(coros[i]) == "CORO_CLOSED" or over):
                    lost(i)         # its wrapper was cancelled before it began
            ev.append({"op": "quiet"})
        over = []

        async def consume():
            args = [made[i] for i in made]
            if n and style % 9 == 0 and item[1] in ("fut", "task"):
                args.append(args[0])        # one awaitable twice
            try:
                r = await fn(*args)
            except BaseException as e:
                if not torn:
                    ev.append({"op": "raise", "o": how(e)})
            else:
                if r is True or r is False:
                    ev.append({"op": "res", "v": r})
                else:
                    ev.append({"op": "raise", "o": "returned " + enc(r)})
            over.append(1)
        task = None

        async def begin():
            nonlocal task
            for i in range(1, n + 1):
                made[i] = make(i)
            for i in range(1, n + 1):
                if item[i] == "fut":
                    ev.append({"op": "start", "i": i})
            ev.append({"op": "begin"})
            task = loop.create_task(consume())

        for o in ops:
            op = o["op"]
            if op == "begin":
                await begin()
            elif op == "comp":
                if o["i"] in gate:
                    finish(o["i"], o["o"])
                else:
                    preset[o["i"]] = o["o"]
            elif op == "tick":
                await tick()
            elif op == "settle":
                await settle(loop)
                quiet()
        if task is None:
            await begin()
        await settle(loop)
        quiet()
        for r, i in enumerate(sorted(gate, key=lambda i: (style // i) % 7)):
            if not gate[i].done():
                finish(i, ["t", "f", "f", "X", "t"][(style + i) % 5])
                if (style + r) % 2:
                    await settle(loop)
                    quiet()
        await settle(loop)
        quiet()
        torn.append(1)
        for g in gate.values():
            if g.done() and not g.cancelled():
                g.exception()
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "res":
            yield "flip", ev[:i] + [dict(e, v=not e["v"])] + ev[i + 1:]
        if e["op"] == "raise":
            yield "exc", ev[:i] + [dict(e, o="E:None")] + ev[i + 1:]
            yield "none", ev[:i] + ev[i + 1:]
        if e["op"] == "gone" and any(x["op"] == "res" for x in ev[:i]):
            if (e["i"] not in cfg["ex"] and any(x["op"] == "quiet" for x in ev[i:])
                    and not any(x["op"] == "comp" and x["i"] == e["i"] for x in ev)):
                yield "kept", [x for x in ev if x != e]
            j = [k for k, x in enumerate(ev) if x["op"] == "res"][0]
            yield "early", ev[:j] + [e] + ev[j:i] + ev[i + 1:]
