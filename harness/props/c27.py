"""C27 ASyncFuture expressions."""
import asyncio, operator
from ..common import *
from ..vloop import _Selector

MONITOR = "FutExprMon"
MUST_SEE = ["node", "body", "end", "await", "res", "mat", "deps", "kept", "quiet"]
ASSUMPTIONS = ["no consumer of a future is cancelled", "RuntimeErrors of awaitables that are not coroutines are wrapped (documented by create_task)"]
ALLF = {"+", "-", "*", "/", "//", "**", ">", ">=", "<", "<="}
HOWS = {"int", "str", "bool", "float", "bytes", "item", "attr", "iter", "next", "with", "result", "eq", "in", "set"}
OP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "**": operator.pow,
      ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le}
IOP = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv, "**": operator.ipow}


def spec(tier):
    th = tier == "thorough"
    base = dict(MaxN=4, MaxApp=2, MaxT=2, MaxMat=1, Fs={"-", "<"}, Hows={"int", "eq"}, Kinds={"fut", "aw", "plain"}, Outcomes={"v", "x"}, MaxSize=6, MaxLen=99, MinEmit=99, W=0, Shared=True, Ordered=True)
    inv = ["NoClauseViolated"]
    small = dict(base, MaxN=4, MaxApp=2, Fs={"-"}, MaxLen=9 if th else 7)
    return dict(
        models=[dict(module="FutExprModel", constants=dict(small), invariants=inv, view="View", workers=6),
                dict(module="FutExprModel", constants=dict(base, MaxMat=0, Kinds={"fut"}, MaxLen=8, Fs={"-"}, Shared=False), invariants=inv, view="View", expect_violation=True, workers=1),
                dict(module="FutExprModel", constants=dict(base, MaxMat=0, Kinds={"fut"}, MaxLen=8, Fs={"-"}, Ordered=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="FutExprModel", mode="all", constants=dict(base, MaxN=3, MaxApp=1, MaxMat=1, MaxLen=6), cap=20000 if th else 3000),
              dict(module="FutExprModel", mode="all", constants=dict(base, MaxN=3, MaxApp=1, MaxT=1, MaxMat=0, Fs=ALLF, Outcomes={"v", "z", "x"}, MaxLen=7 if th else 6), cap=20000 if th else 3000),
              dict(module="FutExprModel", mode="sim", constants=dict(base, MaxN=10, MaxApp=6, MaxT=8, MaxMat=6, Fs=ALLF, Hows=HOWS, Outcomes={"v", "z", "x"}, MaxSize=8, MinEmit=34, W=2), num=10000 if th else 900, depth=35),
              dict(module="FutExprModel", mode="sim", constants=dict(base, MaxN=9, MaxApp=6, MaxT=8, MaxMat=6, Fs=ALLF, Hows=HOWS, Outcomes={"v"}, MaxSize=10, MinEmit=34, W=2), num=6000 if th else 500, depth=35)])


class Idle(_Selector):
    """Nothing can ever happen again: do not spin."""
    spun = 0

    def select(self, timeout=None):
        if timeout is None:
            self.spun += 1
            if self.spun > 3000:
                raise Livelock()
        else:
            self.spun = 0
        return super().select(timeout)


class Loop(VLoop):
    def __init__(self):
        self._vtime = 1000.0
        self._vsel = Idle()
        self.foreign = 0
        asyncio.SelectorEventLoop.__init__(self, self._vsel)


class Sym:
    """A value which spells out what is done to it."""
    last = None

    def __init__(self, text, bad=False):
        self.text, self.bad = text, bad

    def __getitem__(self, k):
        return Sym("item(%s)" % self.text) if k == "k" else NotImplemented

    def __setitem__(self, k, v):
        Sym.last = "set(%s)%s" % (self.text, "" if (k, v) == ("k", "w") else "?")

    @property
    def foo(self):
        return Sym("attr(%s)" % self.text)

    def __iter__(self):
        return iter([Sym("iter(%s)" % self.text)])

    def __next__(self):
        return Sym("next(%s)" % self.text)

    def __enter__(self):
        return Sym("with(%s)" % self.text)

    def __exit__(self, *a):
        Sym.last = a
        return [None, False, 0, True, 1][len(self.text) % 5] if a[0] else None

    def __str__(self):
        return "str(%s)" % self.text

    def __eq__(self, o):
        if not isinstance(o, Sym):
            return NotImplemented
        Sym.last = "eq(%s,%s)" % (self.text, o.text)
        return self.text == o.text

    def __hash__(self):
        return hash(self.text)

    def __contains__(self, o):
        Sym.last = "in(%s,%s)" % (o.text if isinstance(o, Sym) else type(o).__name__, self.text)
        return len(self.text) % 2 == 1


def _conv(name, value):
    def f(self):
        Sym.last = "%s(%s)" % (name, self.text)
        return value(self)
    return f


for _n, _v in dict(bool=lambda s: len(s.text) % 3 == 1, int=lambda s: len(s.text), float=lambda s: len(s.text) / 2, bytes=lambda s: s.text.encode()).items():
    setattr(Sym, "__%s__" % _n, _conv(_n, _v))


def _arith(f):
    def op(self, o):
        if not isinstance(o, Sym):
            return NotImplemented
        a, b, g = self, o, f
        if f in ("<", "<="):
            a, b, g = o, self, f.replace("<", ">")
        text = "(%s%s%s)" % (a.text, g, b.text)
        if a.bad or b.bad:
            raise Boom(text)
        return Sym(text)
    return op


for _f, _m in {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "**": "pow", ">": "gt", ">=": "ge", "<": "lt", "<=": "le"}.items():
    setattr(Sym, "__%s__" % _m, _arith(_f))


class Aw:
    """An awaitable that is no coroutine."""
    def __init__(self, c):
        self.c = c

    def __await__(self):
        return self.c.__await__()


def drive(script):
    import a_sync
    from a_sync.future import ASyncFuture, future
    cfg, ops = script[0], script[1:]
    style = shash(script)
    ev = []
    loop = Loop()
    asyncio.set_event_loop(loop)
    loop.set_exception_handler(lambda l, c: None)
    X, gate, preset, exc = {}, {}, {}, {}
    node, tasks, mats = {}, {}, [0]

    def text(v):
        return v.text if isinstance(v, Sym) else "?" + enc(v)

    def fail(e):
        if isinstance(e, Boom) and str(e)[:1] == "(":
            return "!E:Boom:" + str(e)
        for n, x in exc.items():
            if x is e:
                return "!x%d" % n
        return "!" + how(e)

    async def body(n):
        ev.append({"op": "body", "n": n})
        if n not in preset:
            gate[n] = loop.create_future()
            o = await gate[n]
        else:
            if (style + n) % 3 == 0:
                await asyncio.sleep(0)
            o = preset[n]
        ev.append({"op": "end", "n": n, "o": o})
        if o == "x":
            raise exc[n]
        return Sym("v%d" % n, o == "z")

    class Box:
        @future
        async def meth(self, n):
            return await body(n)

    def leaf(n, k):
        c = (style // 3 + n) % 7
        kinds = [ValueError("e"), KeyError(n), RuntimeError("r"), NotImplementedError("n"), asyncio.TimeoutError(), Boom("b"), RecursionError("d")]
        exc[n] = kinds[(style // 5 + n) % 7] if k == "aw" or c < 5 else kinds[(0, 1, 4, 5)[(style + n) % 4]]
        if k == "aw":
            return [lambda: body(n), lambda: loop.create_task(body(n)), lambda: Aw(body(n)), lambda: a_sync.a_sync("async")(body)(n)][c % 4]()
        if c == 0:
            return ASyncFuture(body(n))
        if c == 1:
            return future(body)(n)
        if c == 2:
            return Box().meth(n)
        if c == 3:
            return Box.meth(Box(), n=n)
        if c == 4:
            return future(semaphore=5)(body)(n=n)
        if c == 5:
            return ASyncFuture(Aw(body(n)))
        return ASyncFuture(loop.create_task(body(n)))

    async def wait(t, n):
        try:
            r = await X[n]
        except BaseException as e:
            ev.append({"op": "res", "t": t, "o": fail(e)})
        else:
            ev.append({"op": "res", "t": t, "o": "=" + text(r)})

    def leaves(n):
        x = node[n]
        return leaves(x[1]) | leaves(x[2]) if x[0] == "app" else {n} if x[0] != "plain" else set()

    def fin(n, o):
        if n in gate and not gate[n].done():
            gate[n].set_result(o)
        preset.setdefault(n, o)

    def run(f, inside):
        """f() while the loop is running or not."""
        if not inside:
            return f()

        async def go():
            return f()
        return loop.run_until_complete(go())

    def mat(what, x, y):
        Sym.last = None
        conv = dict(bool=lambda: bool(x), int=lambda: int(x), float=lambda: float(x), bytes=lambda: bytes(x), eq=lambda: x == y, **{"in": lambda: y in x})
        if what in conv:
            r = conv[what]()
            got = Sym.last
            if got is None:
                return "?" + enc(r)
            if what == "eq":
                a, b = got[3:-1].split(",")
                return got if r is (a == b) else got + "?" + enc(r)
            inner = got[len(what) + 1:-1]
            good = dict(bool=len(inner) % 3 == 1, int=len(inner), float=len(inner) / 2, bytes=inner.encode(), **{"in": len(inner.split(",")[-1]) % 2 == 1})[what]
            return got if enc(r) == enc(good) else got + "?" + enc(r)
        if what == "set":
            x["k"] = "w"
            return Sym.last
        if what == "str":
            return str(x)
        if what == "with":
            with x as c:
                pass
            if Sym.last != (None, None, None):
                return "?exit"
            e, out = LookupError(style), None
            try:
                with x:
                    raise e
            except LookupError as e_:
                out = e_
            if Sym.last[:2] != (LookupError, e):
                return "?exit"
            if (out is None) != (len(text(c)[5:-1]) % 5 > 2) or out not in (None, e):
                return "?suppress"
            return text(c)
        if what == "iter":
            return ",".join(text(z) for z in x)
        return text(dict(item=lambda: x["k"], attr=lambda: x.foo, next=lambda: next(x), result=lambda: x.result())[what]())
    seen = {}

    def keep():
        for k, x in X.items():
            if isinstance(x, ASyncFuture):
                if k not in seen:
                    seen[k] = {x: k}, hash(x)
                else:
                    d, h = seen[k]
                    ev.append({"op": "kept", "n": k, "same": hash(x) == h and d.get(x) == k})
    try:
        n = t = 0
        for j, o in enumerate(ops):
            op = o["op"]
            inside = (style + j) % 2 == 1
            if (style + j) % 5 == 0 or j == len(ops) - 1:
                keep()
            if op == "leaf":
                n += 1
                node[n] = (o["k"], 0, 0)
                ev.append({"op": "node", "n": n, "k": o["k"], "f": "", "l": 0, "r": 0})
                X[n] = Sym("p%d" % n) if o["k"] == "plain" else run(lambda: leaf(n, o["k"]), inside)
            elif op == "app":
                n += 1
                node[n] = ("app", o["n"], o["m"])
                ev.append({"op": "node", "n": n, "k": "app", "f": o["f"], "l": o["n"], "r": o["m"]})
                f = (IOP if (style + n) % 3 == 0 and o["f"] in IOP else OP)[o["f"]]
                X[n] = run(lambda: f(X[o["n"]], X[o["m"]]), inside)
            elif op == "await":
                t += 1
                ev.append({"op": "await", "t": t, "n": o["n"]})
                tasks[t] = loop.create_task(wait(t, o["n"]))
                for _ in range((style + j) % 3):
                    loop.run_until_complete(tick((style + j) % 4))
            elif op == "fin":
                fin(o["n"], o["o"])
            elif op == "mat":
                two = o["how"] in ("eq", "in")
                if not o["run"]:
                    for m in leaves(o["n"]) | (leaves(o["m"]) if two else set()):
                        fin(m, "v")
                def look():
                    try:
                        r = "=" + mat(o["how"], X[o["n"]], X[o["m"]])
                    except Exception as e:
                        if isinstance(e, Livelock):
                            raise
                        r = fail(e)
                        if o["run"] and isinstance(e, RuntimeError) and type(e) is not RuntimeError:
                            r = "!other " + type(e).__name__
                    ev.append({"op": "mat", "n": o["n"], "how": o["how"], "m": o["m"], "run": o["run"], "o": r})
                if style % 5 == 1:
                    detach(loop)
                run(look, o["run"])
            elif op == "deps":
                f = X[o["n"]]
                num = {id(x): k for k, x in X.items()}
                up = sorted(num[id(x)] for x in f.__dependencies__ if id(x) in num)
                down = sorted(num[id(x)] for x in f.__dependants__ if id(x) in num)
                ev.append({"op": "deps", "n": o["n"], "up": up, "down": down})
            elif op == "settle":
                loop.run_until_complete(settle(loop))
                ev.append({"op": "quiet"})
        loop.run_until_complete(settle(loop))
        ev.append({"op": "quiet"})
        for k in sorted(node):
            if node[k][0] in ("fut", "app") and (style + k) % 2:
                for m in leaves(k):
                    fin(m, "v")
                t += 1
                ev.append({"op": "await", "t": t, "n": k})
                tasks[t] = loop.create_task(wait(t, k))
        for m in gate:
            fin(m, "v")
        loop.run_until_complete(settle(loop))
        ev.append({"op": "quiet"})
        keep()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        ev.append(escaped(e))
    n = len(ev)
    try:
        for z in asyncio.all_tasks(loop):
            z.cancel()
        loop.run_until_complete(settle(loop))
    except BaseException:
        pass
    for x in X.values():
        c = getattr(x, "c", x) if type(x) is not ASyncFuture else x.__awaitable__
        c = getattr(c, "c", c)
        if asyncio.iscoroutine(c):
            c.close()
    asyncio.set_event_loop(None)
    loop.close()
    del ev[n:]
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "body":
            yield "again", ev[:i + 1] + [e] + ev[i + 1:]
        if e["op"] == "res":
            yield "other", ev[:i] + [dict(e, o="=v0")] + ev[i + 1:]
        if e["op"] == "res" and i + 1 == len(ev) - 1:
            yield "none", ev[:i] + ev[i + 1:]
        if e["op"] == "mat" and e["o"] != "!E:RuntimeError":
            yield "mat", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
        if e["op"] == "deps":
            yield "deps", ev[:i] + [dict(e, up=e["up"] + [99])] + ev[i + 1:]
