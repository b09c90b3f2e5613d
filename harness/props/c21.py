"""C21 members of ASyncBase instances."""
import asyncio, gc
from ..common import *
from ..threads import in_thread, wait_for

MONITOR = "MemMon"
MUST_SEE = ["new", "gone", "call", "body", "end", "inner", "ret", "await", "res", "quiet", "adv"]
ASSUMPTIONS = ["threads of the executors get scheduled within 3 s of real time", "members' values are not awaitable", "flag values are booleans"]
METHS = ("am", "sm", "ams", "ama", "sms", "sma")
PROPS = ("ap", "sp", "aps", "apa", "sps", "spa")
CACHES = ("ac", "sc", "acs", "aca", "scs", "sca")
OVER = ("am", "sm", "ap", "sp", "ac", "sc")


def spec(tier):
    th = tier == "thorough"
    ALL = set(METHS + PROPS + CACHES)
    base = dict(MaxI=2, MaxK=2, Mems=ALL, MaxLen=99, MinEmit=99, W=1, PerInstance=True)
    inv = ["NoClauseViolated"]
    small = {"am", "sm", "sma", "ap", "ac"}
    return dict(
        models=[dict(module="MemModel", constants=dict(base, MaxI=2 if th else 1, MaxLen=8 if th else 7, Mems=small if th else {"sm", "ac"}), invariants=inv, view="View", workers=4),
                dict(module="MemModel", constants=dict(base, Mems={"ap"}, MaxLen=6, PerInstance=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="MemModel", mode="all", constants=dict(base, MaxI=1, MaxK=1, MaxLen=4), cap=20000 if th else 3000),
              dict(module="MemModel", mode="sim", constants=dict(base, MaxI=4, MaxK=30, MinEmit=40, W=12), num=8000 if th else 900, depth=41),
              dict(module="MemModel", mode="sim", constants=dict(base, MaxI=3, MaxK=30, MinEmit=40, W=8, Mems={"am", "sm", "ap", "sp", "ac", "sc"}), num=5000 if th else 500, depth=41)])


def extra_scripts(tier, rng):
    """README: "async by default" objects give awaitables; one strict script about undecorated sync methods."""
    return [[{"op": "cfg", "sync": False, "word": "sync", "place": "attr", "doc": True}, {"op": "new", "cls": "base", "f": "dflt"},
             {"op": "sel", "i": 1, "m": "sm", "path": "direct"}, {"op": "go", "flag": "none", "ctx": "loop", "o": "v"}]]


FLAGS = {"none": {}, "sync+": {"sync": True}, "sync-": {"sync": False}, "asyn+": {"asynchronous": True}, "asyn-": {"asynchronous": False}}
BOTH = [{"sync": a, "asynchronous": b} for a in (True, False) for b in (True, False)]


class Classes:
    """The classes of one scenario; their bodies log to ev."""

    def __init__(self, cfg, style, ev):
        import a_sync
        from a_sync import a_sync as deco
        from a_sync.aliases import property as prop, cached_property as cached
        self.cfg, self.style, self.ev, self.n, self.want = cfg, style, ev, 0, {}
        word, place = cfg["word"], cfg["place"]
        fv = cfg["sync"] if word == "sync" else not cfg["sync"]
        Gen = a_sync.ASyncGenericBase if style % 2 else a_sync.ASyncBase
        ns = {}
        for m in METHS + PROPS + CACHES:
            f = self.afn(m, "base") if m[0] == "a" else self.sfn(m, "base")
            d = {"s": "sync", "a": "async"}.get(m[2:])
            form = (style + len(ns)) % 3
            if m in METHS:
                ns[m] = f if not d else (deco(d)(f) if form == 0 else deco(default=d)(f) if form == 1 else deco(f, default=d))
            elif not d:
                P = ((prop, prop()) if m in PROPS else (cached, cached()))[form % 2] if form else (a_sync.property if m in PROPS else a_sync.cached_property)
                ns[m] = P(f)
            else:
                P = prop if m in PROPS else cached
                ns[m] = P(d)(f) if form == 0 else P(default=d)(f) if form == 1 else P(f, default=d)
        top = Gen
        if place in ("base", "grand"):
            top = type("Root", (Gen,), {word: fv})
        if place == "grand":
            top = type("Root2", (top,), {})
        if place in ("attr", "over"):
            ns[word] = fv
        inst = lambda sync: sync if word == "sync" else not sync
        if place == "init":
            if word == "sync":
                def __init__(self, ident, sync=fv):
                    top.__init__(self)
                    self.ident, self.sync = ident, sync
            else:
                def __init__(self, ident, asynchronous=fv):
                    top.__init__(self)
                    self.ident, self.asynchronous = ident, asynchronous
            make = lambda cls, i, f: cls(i) if f == "dflt" else cls(i, **{word: inst(f == "sync")})
        else:
            def __init__(self, ident, mode="dflt"):
                top.__init__(self)
                self.ident = ident
                if mode != "dflt":
                    setattr(self, word, inst(mode == "sync"))
            make = lambda cls, i, f: cls(i, f)
        ns["__init__"] = __init__
        self.Base = type("Base", (top,), ns)
        ns = {}
        for m in OVER:
            f = self.afn(m, "sub") if m[0] == "a" else self.sfn(m, "sub")
            ns[m] = f if m in METHS else (a_sync.property if m in PROPS else a_sync.cached_property)(f)
        self.Sub = type("Sub", (self.Base,), ns)
        self.make = lambda i, cls, f: make(self.Sub if cls == "sub" else self.Base, i, f)

    def begin(self, me, m, lvl, a, kw):
        k = 0 if m not in METHS else a[0] if a else kw["k"]
        x = {"i": me.ident, "m": m, "k": k, "lvl": lvl}
        good = self.want.get((me.ident, m, k), True)
        self.ev.append({"op": "body", **x, "args": enc((a, sorted(kw.items())))})
        return x, good

    def end(self, x, good, v=None, e=None):
        self.n += 1
        if e is None and good:
            n = self.n
            v = [n, (n, "v"), None, "s%d" % n, 0, [n], False, {"n": n}][(self.style + n) % 8] if v is None else v
            self.ev.append({"op": "end", **x, "o": "=" + enc(v), "good": True})
            return v
        if e is None:
            e = type("Err%d" % self.n, ((ValueError, KeyError, Exception, RuntimeError)[self.n % 4],), {})()
        self.ev.append({"op": "end", **x, "o": "!" + enc(e), "good": False})
        raise e

    def inner(self, x, v=None, e=None):
        self.ev.append({"op": "inner", "i": x["i"], "m": x["m"], "k": x["k"], "o": "!" + enc(e) if e is not None else "=" + enc(v)})

    def afn(self, m, lvl):
        C = self

        async def f(self, *a, **kw):
            x, good = C.begin(self, m, lvl, a, kw)
            if (C.style + C.n) % 3:
                await asyncio.sleep(0)
            if lvl == "sub":
                s = super(C.Sub, self)
                try:
                    v = await (s.am(*a, **kw, sync=False) if m == "am" else s.__ap__() if m == "ap" else s.__ac__(asynchronous=True))
                except Exception as e:
                    C.inner(x, e=e)
                    return C.end(x, False, e=e)
                C.inner(x, v)
                return C.end(x, True, ("sub", v))
            return C.end(x, good)
        if m not in METHS:
            g = f

            async def f(self):
                return await g(self)
        f.__name__ = m
        return f

    def sfn(self, m, lvl):
        C = self

        def f(self, *a, **kw):
            x, good = C.begin(self, m, lvl, a, kw)
            if lvl == "sub":
                s = super(C.Sub, self)
                try:
                    v = s.sm(*a, **kw, sync=True) if m == "sm" else s.__sp__(sync=True) if m == "sp" else s.__sc__(asynchronous=False)
                except Exception as e:
                    C.inner(x, e=e)
                    return C.end(x, False, e=e)
                C.inner(x, v)
                return C.end(x, True, ("sub", v))
            return C.end(x, good)
        if m not in METHS:
            g = f

            def f(self):
                return g(self)
        f.__name__ = m
        return f


def drive(script):
    cfg, ops = script[0], script[1:]
    style = shash(script)
    ev = []
    KW = ["x", "fn", "func", "function", "default", "args", "kwargs", "coro", "flag", "instance", "unbound"]

    async def main(loop):
        C = Classes(cfg, style, ev)
        inst, aw, todo, tasks, want = {}, {}, [], {}, {}
        fired, timers, t0 = set(), [t + 0.5 for t in (20, 90, 150, 299, 305, 350, 420, 600, 640, 900, 1300, 2000)], loop.time()
        for t in timers:
            loop.call_at(t0 + t, fired.add, t)

        def call(o, sel, k):
            i, m, path = sel["i"], sel["m"], sel["path"]
            flag = BOTH[(style + k) % 4] if o["flag"] == "both" else FLAGS[o["flag"]]
            a, kw = (), {}
            if m in METHS:
                rest = {KW[(style + k) % len(KW)]: [k, None, (), "s"][(style // 5 + k) % 4]} if (style // 7 + k) % 3 else {}
                a, kw = ((k,) + tuple(range(k, k + (style + k) % 3)), rest) if (style // 13 + k) % 2 else ((), dict(rest, k=k))
            want[k] = ((i, m, k if m in METHS else 0), o["o"] == "v")
            C.want.__setitem__(*want[k])
            ev.append({"op": "call", "k": k, "i": i, "m": m, "path": path, "flag": o["flag"], "ctx": o["ctx"], "args": enc((a, sorted(kw.items())))})

            def go():
                try:
                    if m in METHS:
                        r = getattr(inst[i], m)(*a, **kw, **flag)
                    elif path == "direct":
                        r = getattr(inst[i], m)
                    else:
                        r = getattr(inst[i], "__%s__" % m)
                        if flag or (style + k) % 2:
                            r = r(**flag)
                except BaseException as e:
                    ev.append({"op": "ret", "k": k, "kind": "raise", "o": "!" + enc(e)})
                else:
                    if hasattr(type(r), "__await__"):
                        ev.append({"op": "ret", "k": k, "kind": "awaitable", "o": ""})
                        aw[k] = r
                        todo.append(k)
                    else:
                        ev.append({"op": "ret", "k": k, "kind": "value", "o": "=" + enc(r)})
            if o["ctx"] == "loop":
                go()
            else:
                in_thread(o["ctx"], go)

        async def wait(k):
            C.want.__setitem__(*want[k])
            try:
                r = await aw[k]
            except BaseException as e:
                ev.append({"op": "res", "k": k, "o": "!" + how(e)})
            else:
                ev.append({"op": "res", "k": k, "o": "=" + enc(r)})

        async def quiet():
            await wait_for(loop, lambda: set(tasks) <= {e["k"] for e in ev if e["op"] == "res"})
            ev.append({"op": "quiet"})

        def start(k):
            ev.append({"op": "await", "k": k})
            tasks[k] = loop.create_task(wait(k))

        n, sel = 0, None
        for o in ops:
            op = o["op"]
            if op == "new":
                i = len([e for e in ev if e["op"] == "new"]) + 1
                ev.append({"op": "new", "i": i, "cls": o["cls"], "f": o["f"]})
                inst[i] = C.make(i, o["cls"], o["f"])
            elif op == "gone":
                if o["i"] in inst and not any(want[k][0][0] == o["i"] for k in todo):
                    await quiet()
                    ev.append({"op": "gone", "i": o["i"]})
                    for k in [k for k in want if want[k][0][0] == o["i"]]:
                        aw.pop(k, None)
                        if k in tasks:
                            tasks[k] = None
                    del inst[o["i"]]
                    if style % 3 == 0:
                        gc.collect()
            elif op == "sel":
                sel = o
            elif op == "go":
                n += 1
                call(o, sel, n)
            elif op == "await":
                if todo:
                    start(todo.pop(0))
                    if (style + n) % 3:
                        await quiet()
            elif op == "adv":
                await quiet()
                await advance(loop, o["t"])
                ev.append({"op": "adv", "late": len([t for t in timers if t0 + t <= loop.time() and t not in fired])})
        while todo:
            start(todo.pop(0))
        await quiet()
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "body":
            yield "args", ev[:i] + [dict(e, args=e["args"] + "x")] + ev[i + 1:] if e["m"] in METHS and e["lvl"] == "base" and not any(b["op"] == "body" and b["k"] == e["k"] and b["lvl"] == "sub" for b in ev) else ev[:i + 1] + [e, e] + ev[i + 1:]
            yield "instance", ev[:i] + [dict(e, i=e["i"] + 7)] + ev[i + 1:]
        if e["op"] == "res":
            yield "outcome", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
            yield "none", ev[:i] + ev[i + 1:]
        if e["op"] == "ret" and e["kind"] == "raise":
            yield "kind", ev[:i] + [dict(e, kind="awaitable", o="")] + ev[i + 1:]
        if e["op"] == "inner":
            yield "super", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
        if e["op"] == "adv":
            yield "late", ev[:i] + [dict(e, late=1)] + ev[i + 1:]
