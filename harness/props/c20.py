"""C20 the a_sync decorator."""
import asyncio, functools, threading
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..threads import in_thread, wait_for

MONITOR = "CallMon"
MUST_SEE = ["deco", "call", "body", "end", "ret", "await", "res", "quiet"]
ASSUMPTIONS = ["threads of the executors get scheduled within 3 s of real time",
               "flag values are booleans"]


def spec(tier):
    th = tier == "thorough"
    base = dict(MaxK=2, Ws={1, 2}, MaxLen=99, MinEmit=99, W=1, Pops=True)
    inv = ["NoClauseViolated"]
    return dict(
        models=[dict(module="CallModel", constants=dict(base, MaxK=3 if th else 2), invariants=inv, view="View", workers=4),
                dict(module="CallModel", constants=dict(base, Pops=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="CallModel", mode="all", constants=dict(base, MaxK=1), cap=20000 if th else 2500),
              dict(module="CallModel", mode="sim", constants=dict(base, MaxK=4, Ws={1, 2, 8}, MinEmit=14, W=2), num=8000 if th else 1500, depth=15),
              dict(module="CallModel", mode="sim", constants=dict(base, MaxK=8, Ws={1, 2, 8}, MinEmit=30, W=4), num=5000 if th else 700, depth=31)])


class Aw:
    """An awaitable that is just a value."""

    def __await__(self):
        yield


FLAGS = {"none": {}, "sync+": {"sync": True}, "sync-": {"sync": False}, "asyn+": {"asynchronous": True}, "asyn-": {"asynchronous": False}}
BOTH = [{"sync": a, "asynchronous": b} for a in (True, False) for b in (True, False)]
_decl = []


def decorations(style, ev):
    """Which things can be decorated at all."""
    import a_sync
    from a_sync import a_sync as deco

    def make(what):
        if what == "def": return lambda: deco(_fn("def f(a, b=1): return a"))
        if what == "async def": return lambda: deco(_fn("async def f(a, *, b=1): return a"))
        if what == "kwonly": return lambda: deco("async")(_fn("def f(*, b=1, **kw): return b"))
        if what == "lambda": return lambda: deco("sync")(lambda x: x)
        if what == "bound": return lambda: deco([].append)
        if what == "callable": return lambda: deco(_fn("class f:\n def __init__(self, a=1): pass"))
        if what.startswith(("def ", "async def ")):
            word = what.split()[-1]
            return lambda: deco(_fn(what[:what.index("def") + 3] + " f(a, %s%s=True): return a" % ("*, " if style % 3 else "", word)))
        if what == "gen": return lambda: deco(_fn("def f(a):\n yield a"))
        if what == "agen": return lambda: deco("async")(_fn("async def f(a):\n yield a"))
        if what == "default": return lambda: deco(default="asink")(_fn("def f(a): return a"))
        return lambda: deco(5)
    WHAT = ["def", "async def", "kwonly", "lambda", "bound", "callable", "def sync", "def asynchronous", "async def sync", "async def asynchronous",
            "gen", "agen", "default", "not callable", "gen", "agen"]
    for i in range(3):
        what = WHAT[(style + i * 7) % len(WHAT)]
        if what in ("gen", "agen") or "sync" in what:
            for _ in range(4):          # others were decorated, and collected, before
                deco(_fn("def f(a, b=1): return a"))
                deco(_fn("async def f(a, b=1): return a"))
        try:
            make(what)()
        except BaseException as e:
            ev.append({"op": "deco", "what": what, "o": enc(e)})
        else:
            ev.append({"op": "deco", "what": what, "o": "ok"})


def _fn(src):
    ns = {}
    exec(src, ns)
    return ns["f"]


def drive(script):
    import a_sync
    from a_sync import a_sync as deco
    cfg, ops = script[0], script[1:]
    style = shash(script)
    ev = []
    decorations(style, ev)
    VALUES = [lambda k: k, lambda k: None, lambda k: (k, "r"), lambda k: False, lambda k: [k], lambda k: Aw(), lambda k: Boom("value"), lambda k: 0]
    gate, argsof, vals, open_ = {}, {}, {}, []
    KW = ["x", "fn", "func", "function", "default", "args", "kwargs", "coro", "flag", "executor"]

    def outcome(k):
        o = gate[k]
        if o == "x":
            e = [Boom("%d" % k), ValueError("v"), KeyError(k), RuntimeError("r"), TypeError("t"), asyncio.TimeoutError()][(style + k) % 6]
            return False, e
        v = VALUES[(style // 3 + k) % len(VALUES)](k)
        vals[k] = v
        return True, v

    def begin(a, kw):
        k = a[0] if a else kw.get("k", 0)
        ev.append({"op": "body", "k": k, "args": enc((a, sorted(kw.items()))), "th": "caller" if threading.get_ident() == caller[0] else "other"})
        return k

    def end(k):
        good, v = outcome(k)
        ev.append({"op": "end", "k": k, "o": ("=" if good else "!") + enc(v)})
        if not good:
            raise v
        return v
    caller = [threading.get_ident()]
    tev = {}

    async def main(loop):
        fut = {}

        def sbody(*a, **kw):
            k = begin(a, kw)
            if k not in gate:
                if threading.get_ident() == caller[0]:
                    gate[k] = "v"
                elif not tev[k].wait(20):
                    gate[k] = "v"
            return end(k)

        async def abody(*a, **kw):
            k = begin(a, kw)
            if k not in gate:
                fut[k] = loop.create_future()
                await fut[k]
            elif (style + k) % 2:
                await asyncio.sleep(0)
            return end(k)
        body = sbody if cfg["def"] == "sync" else abody
        d = None if cfg["deflt"] == "none" else cfg["deflt"]
        w, mods = cfg["w"], {}
        if w < 8 or style % 5 == 0:
            ex = (ThreadPoolExecutor if style % 3 else a_sync.AsyncThreadPoolExecutor)(w) if style % 4 else a_sync.PruningThreadPoolExecutor(w)
            open_.append(ex)
            mods = {"executor": ex}
        form = style // 11 % 4
        if d is None:
            f = deco(body, **mods) if form % 2 else deco(**mods)(body)
        elif form == 0:
            f = deco(d, **mods)(body)
        elif form == 1:
            f = deco(default=d, **mods)(body)
        else:
            f = deco(body, default=d, **mods)
        aw, task, ended = {}, {}, set()

        def call(o, k):
            rest = {KW[(style + k) % len(KW)]: [k, None, (), "s"][(style // 5 + k) % 4]} if (style // 7 + k) % 3 else {}
            a, kw = ((k,) + tuple(range(k, k + (style + k) % 3)), rest) if (style // 13 + k) % 2 else ((), dict(rest, k=k))
            flag = BOTH[(style + k) % 4] if o["flag"] == "both" else FLAGS[o["flag"]]
            tev[k] = threading.Event()
            ev.append({"op": "call", "k": k, "flag": o["flag"], "ctx": o["ctx"], "args": enc((a, sorted(kw.items())))})
            sync = cfg["def"] == "sync" if d is None else d == "sync"
            if flag:
                sync = flag.get("sync", not flag.get("asynchronous", True))
            if sync:
                gate[k] = o["o"]

            def go():
                caller[0] = threading.get_ident()
                try:
                    r = f(*a, **kw, **flag)
                except BaseException as e:
                    ev.append({"op": "ret", "k": k, "kind": "raise", "o": "!" + enc(e)})
                else:
                    if k in vals and r is vals[k] or not hasattr(r, "__await__"):
                        ev.append({"op": "ret", "k": k, "kind": "value", "o": "=" + enc(r)})
                    else:
                        ev.append({"op": "ret", "k": k, "kind": "awaitable", "o": ""})
                        aw[k] = r
            if o["ctx"] == "loop":
                go()
            else:
                in_thread(o["ctx"], go)
            caller[0] = home

        async def wait(k):
            try:
                r = await aw[k]
            except BaseException as e:
                ev.append({"op": "res", "k": k, "o": "!" + how(e)})
            else:
                ev.append({"op": "res", "k": k, "o": "=" + enc(r)})

        home = threading.get_ident()

        def settled():
            end_ = {e["k"] for e in ev if e["op"] == "end"}
            got = {e["k"] for e in ev if e["op"] == "res"}
            beg = {e["k"] for e in ev if e["op"] == "body"}
            return (set(task) & end_) <= got and (len(beg - end_) >= w or cfg["def"] == "async" or set(task) <= beg) and not any(gate.get(k) and k not in end_ for k in beg)

        async def quiet():
            await wait_for(loop, settled)
            ev.append({"op": "quiet"})

        n = 0
        for o in ops:
            op = o["op"]
            if op == "call":
                n += 1
                call(o, n)
            elif op == "await":
                if o["k"] in aw and o["k"] not in task:
                    ev.append({"op": "await", "k": o["k"]})
                    task[o["k"]] = loop.create_task(wait(o["k"]))
            elif op == "fin":
                await fin(o, gate, fut, tev)
            elif op == "settle":
                await quiet()
        for k in aw:
            if k not in task:
                if k % 2:
                    ev.append({"op": "await", "k": k})
                    task[k] = loop.create_task(wait(k))
                elif hasattr(aw[k], "close"):
                    aw[k].close()
        await quiet()
        for k in range(n, 0, -1):
            if k not in gate:
                await fin({"k": k, "o": "v" if (style + k) % 3 else "x"}, gate, fut, tev)
                if k % 2:
                    await quiet()
        await quiet()

    async def fin(o, gate, fut, tev):
        k = o["k"]
        if k not in gate and k in tev:
            gate[k] = o["o"]
            tev[k].set()
            if k in fut and not fut[k].done():
                fut[k].set_result(None)
    try:
        guarded(main, ev)
    finally:
        for k, t in tev.items():
            gate.setdefault(k, "v")
            t.set()
        for ex in open_:
            ex.shutdown(wait=False)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "body":
            yield "args", ev[:i] + [dict(e, args=e["args"] + "x")] + ev[i + 1:]
            yield "twice", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "res":
            yield "outcome", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
            yield "none", ev[:i] + ev[i + 1:]
        if e["op"] == "ret" and e["kind"] in ("awaitable", "raise"):
            yield "kind", ev[:i] + [dict(e, kind="value", o="=1")] + ev[i + 1:]
        if e["op"] == "deco" and e["what"] == "gen":
            yield "deco", ev[:i] + [dict(e, o="ok")] + ev[i + 1:]
