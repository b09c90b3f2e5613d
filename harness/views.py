"""Driver shared by C17 (iterables) and C18 (filter and sort)."""
import asyncio, gc, types, functools
from .common import *


class Callable_:
    """A callable object, and a falsy one."""
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def __len__(self):
        return 0


class Item:
    """Only its key is comparable (if at all); may be falsy."""
    def __init__(self, name, rank, truthy, cmp):
        self.name, self.rank, self.truthy, self.cmp = name, rank, truthy, cmp

    def __bool__(self):
        return self.truthy

    def __lt__(self, o):
        if not self.cmp:
            raise Boom("compared")
        return self.rank < o.rank
    __hash__ = None

    def __eq__(self, o):
        raise Boom("equality")


class ItemH(Item):
    """Hashable and comparable for equality as usual."""
    __hash__ = object.__hash__
    __eq__ = object.__eq__


def nm(x):
    return x.name if isinstance(x, Item) else enc(x)


EXC = [Boom, ValueError, KeyError, RuntimeError, TypeError, TimeoutError]


def drive_views(script):
    import a_sync
    from a_sync.iter import ASyncIterable, ASyncIterator, ASyncFilter, ASyncSorter, ASyncGeneratorFunction
    from a_sync.exceptions import SyncModeInAsyncContextError
    ops = script[1:]
    style = shash(script)
    nokey = style % 3 == 0
    ev = []
    try:
        prev = asyncio.get_event_loop_policy()
    except Exception:
        prev = None
    loop = VLoop()
    loop.set_exception_handler(lambda l, c: None)
    asyncio.set_event_loop(loop)
    loner = style % 5 == 1      # no event loop in this thread until the library wants one

    def mix(*a):
        return shash([style, *a])

    # ---- sources
    def steps_of(tag, i, n, fail):
        """The python steps: ("item", obj) or ("exc", exception)."""
        out = []
        for j in range(n):
            z = mix(tag, i, j)
            if fail and j == n - 1:
                out.append(("exc", EXC[z % len(EXC)]("x%d" % (z % 97))))
            elif not nokey and z % 4 == 0:
                out.append(("item", [None, 0, "", (), False, ValueError("as item"), "a", 7][(z // 4) % 8]))
            else:
                out.append(("item", (ItemH if z % 2 else Item)("%s.%d.%d" % (tag, i, j), (z // 8) % 3, z % 3 != 0, nokey)))
        return out

    def pred_core(f, x):
        z = mix("pred", f, nm(x))
        if z % 23 == 0 and f == 2:
            raise EXC[z % len(EXC)]("p%d" % (z % 7))
        return [True, False, 1, 0, "x", "", None, [0], [], 2.5][z % 10]

    def key_core(f, x):
        z = mix("key", f, nm(x))
        if f == 2 and z % 29 == 0:
            raise EXC[z % len(EXC)]("k%d" % (z % 7))
        return (z // 3) % 3

    def table(st):
        out = []
        for kind, x in st:
            if kind == "exc":
                out.append({"x": True, "v": enc(x), "p": [], "k": []})
                continue
            p, k = [], []
            for f in (1, 2):
                try:
                    p.append("t" if pred_core(f, x) else "f")
                except Exception as e:
                    p.append(enc(e))
                if nokey and f == 1:
                    k.append([x.rank, ""])
                else:
                    try:
                        k.append([key_core(f, x), ""])
                    except Exception as e:
                        k.append([0, enc(e)])
            out.append({"x": False, "v": nm(x), "p": p, "k": k})
        return out

    async def play(st, z):
        for j, (kind, x) in enumerate(st):
            for _ in range([0, 0, 1, 2, 3][(z + j) % 5]):
                await asyncio.sleep(0)
            if kind == "exc":
                raise x
            yield x
        if z % 3 == 0:
            await asyncio.sleep(0)

    class CIter:
        def __init__(self, st, z):
            self.st, self.z, self.j = st, z, 0

        def __aiter__(self):
            return self

        async def __anext__(self):
            for _ in range([0, 1, 2][(self.z + self.j) % 3]):
                await asyncio.sleep(0)
            if self.j >= len(self.st):
                raise StopAsyncIteration
            kind, x = self.st[self.j]
            self.j += 1
            if kind == "exc":
                raise x
            return x

    class LIter(CIter):
        """Tells how many are left: falsy when none is."""
        def __len__(self):
            return len(self.st) - self.j

    class FIter(CIter):
        def __bool__(self):
            return False

    class CAble:
        def __init__(self, st, z, it):
            self.st, self.z, self.it = st, z, it

        def __aiter__(self):
            return self.it(self.st, self.z)

    class SIter:
        def __init__(self, st, falsy=False):
            self.st, self.j, self.falsy = st, 0, falsy

        def __iter__(self):
            return self

        def __bool__(self):
            return not self.falsy

        def __next__(self):
            if self.j >= len(self.st):
                raise StopIteration
            kind, x = self.st[self.j]
            self.j += 1
            if kind == "exc":
                raise x
            return x

    class SAble:
        def __init__(self, st, falsy):
            self.st, self.falsy = st, falsy

        def __iter__(self):
            return SIter(self.st, self.falsy)

    # ---- decorated generator functions and methods
    wrap = [ASyncIterator.wrap, ASyncGeneratorFunction][style % 2]

    @wrap
    async def plain(tag, i, n=0, *, fail=False, z=0):
        async for x in play(steps_of(tag, i, n, fail), z):
            yield x

    def factory(pre):
        async def made(self, tag, i, n=0, *, fail=False, z=0):
            async for x in play(steps_of(pre + self.name + tag, i, n, fail), z):
                yield x
        return made

    class A:
        def __init__(self, name):
            self.name = name

        @wrap
        async def m1(self, tag, i, n=0, *, fail=False, z=0):
            async for x in play(steps_of("m1" + self.name + tag, i, n, fail), z):
                yield x

        @wrap
        async def m2(self, tag, i, n=0, *, fail=False, z=0):
            async for x in play(steps_of("m2" + self.name + tag, i, n, fail), z):
                yield x
        f1 = wrap(factory("f1"))
        f2 = wrap(factory("f2"))

    class B(A):
        @wrap
        async def m1(self, tag, i, n=0, *, fail=False, z=0):
            async for x in super().m1(tag, i, n, fail=fail, z=z):
                yield x

        def up(self, name):
            return getattr(super(), name)

        @wrap
        async def m3(self, tag, i, n=0, *, fail=False, z=0):
            async for x in play(steps_of("m3" + self.name + tag, i, n, fail), z):
                yield x
    insts = {}
    bounds = {}

    def method_call(o, i, n, fail):
        z = mix("meth", o)
        k = z % 3
        if k not in insts:
            insts[k] = (B if (z // 3) % 2 else A)("%d%s" % (k, "x" * len(bounds)))
            bounds[k] = {}
        a = insts[k]
        names = ["m1", "m2", "f1", "f2"] + (["m3"] if isinstance(a, B) else [])
        m = names[(z // 7) % len(names)]
        tag = "o%d" % o
        st = steps_of(m + a.name + tag, i, n, fail)
        how_ = (z // 11) % 5
        kw = dict(fail=fail, z=z)
        if how_ == 0:
            r = getattr(type(a), m)(a, tag, i, n, **kw)
        elif how_ == 1:
            b = bounds[k].setdefault(m, getattr(a, m))
            r = b(tag, i, n=n, **kw)
        elif how_ == 2 and isinstance(a, B) and m != "m3":
            r = a.up(m)(tag, i, n, **kw)
        else:
            r = getattr(a, m)(tag, i, n, **kw)
        return r, st

    # ---- what is under test
    objs, its = [], []

    def make(o, t, i):
        n, fail = i % 4, i >= 4
        z = mix("src", o)
        gen = True
        if t == "gen":
            st = steps_of("g%d" % o, i, n, fail)
            x = plain("g%d" % o, i, n, fail=fail, z=z) if z % 2 else plain("g%d" % o, i, n=n, z=z, fail=fail)
        elif t == "meth":
            x, st = method_call(o, i, n, fail)
        else:
            st = steps_of("s%d" % o, i, n, fail)
            if t == "list":
                gen = z % 2 == 0
                x = [y for _, y in st] if not fail and z % 3 == 0 else tuple(y for _, y in st) if not fail and z % 3 == 1 else SAble(st, z % 5 == 0)
                gen = False
            elif t == "able":
                fl = z % 4
                gen = fl in (0, 3)
                if fl == 0:
                    x = ASyncIterable(CAble(st, z, play))
                elif fl == 1:
                    x = ASyncIterable(CAble(st, z, CIter))
                elif fl == 2:
                    x = ASyncIterable.wrap(CAble(st, z, LIter if (z // 4) % 2 else FIter))
                else:
                    class Own(ASyncIterable):
                        """Overrides {cls} for {obj}."""
                        def __init__(self):
                            pass

                        async def __aiter__(self):
                            async for y in play(st, z):
                                yield y
                    x = Own()
            else:
                fl = z % 4
                gen = fl == 0
                src = play(st, z) if fl == 0 else [CIter, LIter, FIter][fl - 1](st, z)
                x = ASyncIterator(src) if (z // 4) % 2 else ASyncIterator.wrap(src)
        return x, st, gen

    def pred(f, o):
        z = mix("predkind", o)
        if z % 4 == 0:
            async def p(x):
                for _ in range(mix("d", nm(x)) % 3):
                    await asyncio.sleep(0)
                return pred_core(f, x)
            if (z // 4) % 3 == 0:
                p = a_sync.a_sync(p)
        elif z % 4 == 1:
            def p(x):
                v = pred_core(f, x)
                fut = loop.create_future()
                loop.call_soon(fut.set_result, v)
                return fut
        else:
            def p(x):
                return pred_core(f, x)
        return Callable_(p) if mix("predobj", o) % 5 == 0 else p

    def key(f, o):
        z = mix("keykind", o)
        conv = [lambda n: n, lambda n: (n, 0), lambda n: "k%03d" % n, lambda n: [n], lambda n: n - 1][z % 5]
        if nokey and f == 1:
            return None
        if (z // 5) % 2:
            async def k(x):
                for _ in range(mix("d", nm(x)) % 4):
                    await asyncio.sleep(0)
                return conv(key_core(f, x))
            if (z // 10) % 4 == 0:
                k = a_sync.a_sync(k)
            elif (z // 10) % 4 == 1:
                k = functools.partial(lambda g, x: g(x), k)
        else:
            def k(x):
                return conv(key_core(f, x))
        return Callable_(k) if mix("keyobj", o) % 5 == 0 else k

    def run(coro):
        return loop.run_until_complete(coro)

    def got(fn, wrap_=None):
        """-> r, value"""
        try:
            return "item", fn()
        except (StopIteration, StopAsyncIteration):
            return "stop", None
        except SyncModeInAsyncContextError:
            return "sync", None
        except RuntimeError as e:
            if isinstance(e.__cause__, (StopIteration, StopAsyncIteration)):
                return "stop-as-error", None
            return "exc", e
        except Exception as e:
            return "exc", e

    async def agot(coro):
        try:
            return "item", await coro
        except StopAsyncIteration:
            return "stop", None
        except RuntimeError as e:
            if isinstance(e.__cause__, (StopIteration, StopAsyncIteration)):
                return "stop-as-error", None
            return "exc", e
        except Exception as e:
            return "exc", e

    def nxt_event(c, r, v, inl=False):
        ev.append({"op": "next", "c": c + 1, "r": r, "v": nm(v) if r == "item" else enc(v) if r == "exc" else "", "inl": inl})

    async def inside(fn):
        await asyncio.sleep(0)
        return got(fn)

    def do(o):
        op = o["op"]
        if op == "mk":
            x, st, gen = make(len(objs), o["t"], o["i"])
            objs.append(x)
            ev.append({"op": "mk", "o": len(objs), "re": o["t"] in ("able", "list"), "steps": table(st), "gen": gen})
        elif op in ("filter", "sort"):
            src = objs[o["src"] - 1]
            n = len(objs)
            if src is None:
                objs.append(None)
                return
            raw = isinstance(src, (list, tuple, SAble))
            z = mix("view", n)
            if op == "filter":
                p = pred(o["f"], n)
                r, x = got(lambda: ASyncFilter(p, src) if raw or z % 3 == 0 else src.filter(p))
            else:
                k = key(o["f"], n)
                kw = {}
                if k is not None or z % 2:
                    kw["key"] = k
                if o["rev"] or z % 5 == 0:
                    kw["reverse"] = o["rev"]
                r, x = got(lambda: ASyncSorter(src, **kw) if raw or z % 3 == 0 else src.sort(**kw))
            if r != "item":
                objs.append(None)
                ev.append({"op": "noview", "src": o["src"], "o": enc(x)})
                return
            objs.append(x)
            repr(x) if not isinstance(src, Item) else None
            e = {"op": op, "o": n + 1, "src": o["src"], "f": o["f"]}
            if op == "sort":
                e["rev"] = o["rev"]
            ev.append(e)
        elif op == "iter":
            x = objs[o["o"] - 1]
            if x is None or isinstance(x, (list, tuple, SAble)):
                its.append(None)
                return
            r, it = got((lambda: x.__aiter__()) if o["how"] == "a" else (lambda: iter(x)))
            its.append(it if r == "item" else None)
            ev.append({"op": "iter", "c": len(its), "o": o["o"], "gen": r == "item" and not hasattr(it, "__anext__"), "r": "" if r == "item" else enc(it)})
        elif op == "next":
            c = o["c"] - 1
            it = its[c] if c < len(its) else None
            if it is None:
                return
            how_ = o["how"]
            sync, asy = hasattr(it, "__next__"), hasattr(it, "__anext__")
            if how_ == "in":
                if not sync:
                    return
                r, v = run(inside(lambda: next(it)))
                nxt_event(c, r, v, True)
            elif sync and (how_ == "s" or not asy):
                nxt_event(c, *got(lambda: next(it)))
            else:
                nxt_event(c, *run(agot(it.__anext__())))
        elif op == "par":
            a, b = o["c"] - 1, o["d"] - 1
            if max(a, b) >= len(its) or not all(hasattr(its[i], "__anext__") for i in (a, b)):
                return

            async def one(i):
                nxt_event(i, *await agot(its[i].__anext__()))

            async def both():
                await asyncio.gather(one(a), one(b))
            run(both())
        elif op == "all":
            x = objs[o["o"] - 1]
            if x is None or isinstance(x, (list, tuple, SAble)):
                return
            how_ = o["how"]
            z = mix("all", len(ev))
            inl = how_ == "in"

            async def w():
                if how_ == "await":
                    return await x
                return [y async for y in x]
            if how_ == "in":
                r, v = run(inside((lambda: x.materialized) if z % 2 else (lambda: list(x))))
            elif how_ == "mat":
                r, v = got(lambda: x.materialized)
            elif how_ == "loop" and z % 2:
                r, v = got(lambda: list(x))
            else:
                r, v = run(agot(w()))
            ev.append({"op": "all", "o": o["o"], "r": r, "q": [nm(y) for y in v] if r == "item" else [], "v": enc(v) if r == "exc" else "", "inl": inl})
        elif op == "env":
            if o["e"] == "adv":
                run(advance(loop, 301))
            else:
                k = mix("drop", len(ev)) % 3
                insts.pop(k, None)
                bounds.pop(k, None)
                gc.collect(0)
    n = 0
    try:
        for o in ops:
            n = len(ev)
            if loner:
                detach(loop)
            do(o)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        ev.append(escaped(e))
    try:
        loop.run_until_complete(settle(loop))
        for t in asyncio.all_tasks(loop):
            t.cancel()
        loop.run_until_complete(settle(loop))
        loop.run_until_complete(loop.shutdown_asyncgens())
    except BaseException:
        pass
    asyncio.set_event_loop(None)
    loop.close()
    return script[0], ev


def view_corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "next" and e["r"] == "item":
            yield "value", ev[:i] + [dict(e, v=e["v"] + "x")] + ev[i + 1:]
            yield "stop", ev[:i] + [dict(e, r="stop")] + ev[i + 1:]
        if e["op"] == "all" and e["r"] == "item" and len(e["q"]) > 1 and len(set(e["q"])) == len(e["q"]):
            yield "order", ev[:i] + [dict(e, q=e["q"][::-1])] + ev[i + 1:]
        if e["op"] == "all" and e["r"] == "item":
            yield "more", ev[:i] + [dict(e, q=e["q"] + ["zz"])] + ev[i + 1:]
        if e["op"] == "next" and e["inl"] and e["r"] == "sync":
            yield "inl", ev[:i] + [dict(e, r="item")] + ev[i + 1:]
