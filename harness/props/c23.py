"""C23 singletons under thread races."""
import queue, threading, time, inspect
from ..common import *

MONITOR = "SingMon"
MUST_SEE = ["call", "init", "end", "ret", "quiet"]
ASSUMPTIONS = ["a thread that can go on does so within 3 s of real time", "flags are given as keywords", "__init__s nest in one order of classes (otherwise user code deadlocks itself)"]


def spec(tier):
    th = tier == "thorough"
    base = dict(MaxT=3, Classes={1, 2, 3, 4}, MaxK=8, MaxLen=99, MinEmit=99, W=1, Recheck=True)
    inv = ["NoClauseViolated", "NoHang"]
    return dict(
        models=[dict(module="SingModel", constants=dict(base, Classes={1, 2}, MaxT=3 if th else 2, MaxK=4 if th else 3, MaxLen=8 if th else 7), invariants=inv, view="View", workers=4),
                dict(module="SingModel", constants=dict(base, Classes={1}, MaxT=2, MaxLen=5, Recheck=False), invariants=["NoClauseViolated"], view="View", expect_violation=True, workers=1)],
        gens=[dict(module="SingModel", mode="all", constants=dict(base, Classes={1, 2}, MaxT=2, MaxK=3, MaxLen=4), cap=12000 if th else 2500),
              dict(module="SingModel", mode="sim", constants=dict(base, Classes={1}, MaxT=4, MaxK=12, MinEmit=20, W=4), num=3000 if th else 800, depth=21),
              dict(module="SingModel", mode="sim", constants=dict(base, MaxT=4, MaxK=30, MinEmit=40, W=12), num=4000 if th else 1000, depth=41)])


class Worker:
    """A thread that constructs; inside __init__ it waits for the driver."""

    def __init__(self):
        self.q, self.busy, self.frames = queue.SimpleQueue(), False, []
        self.th = threading.Thread(target=self.run, daemon=True)
        self.th.start()

    def run(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            f()
            self.busy = False

    def init(self, what):
        """What __init__ does: obey the driver until told how to end."""
        self.frames.append(what)
        while True:
            self.busy = False
            f = self.q.get()
            if not callable(f):
                self.frames.pop()
                return f
            f()


def classes(cfg, style, init):
    import a_sync
    from a_sync.a_sync.singleton import ASyncGenericSingleton
    Top = ASyncGenericSingleton
    word, place = cfg["word"], cfg["place"]
    val = lambda mode: (mode == "sync") == (word == "sync")
    out = {}

    def member(ns):
        async def m(self):
            return 1

        def s(self):
            return 2
        ns["m"] = m
        ns["s"] = s
        return ns

    def make_init(c, up, mode):
        if place == "init" and c != 4:
            if word == "sync":
                def __init__(self, token, sync=val(mode)):
                    Top.__init__(self)
                    self.sync = sync
                    init(self, token)
            else:
                def __init__(self, token, asynchronous=val(mode)):
                    Top.__init__(self)
                    self.asynchronous = asynchronous
                    init(self, token)
        else:
            def __init__(self, token):
                Top.__init__(self)
                init(self, token)
        return __init__
    d = cfg["defs"]
    if place == "base":
        root = type(Top)("Root", (Top,), {word: val(d[0])})
        ns = {}
    else:
        root, ns = Top, ({word: val(d[0])} if place == "attr" else {})
    meta = type(Top)
    ns["__init__"] = make_init(1, root, d[0])
    out[1] = meta("A", (root,), member(ns))
    ns = {}
    if cfg["flip"]:
        if place == "init":
            ns["__init__"] = make_init(2, out[1], d[1])
        else:
            ns[word] = val(d[1])
    out[2] = meta("B", (out[1],), ns)
    out[3] = meta("C" if style % 2 else "B", (out[2],), {} if style % 3 else member({}))
    out[4] = meta("A" if style % 2 else "D", (Top,), member({word: val(d[3]), "__init__": make_init(4, Top, d[3])}))
    return out


FLAGS = {"dflt": {}, "sync+": {"sync": True}, "sync-": {"sync": False}, "asyn+": {"asynchronous": True}, "asyn-": {"asynchronous": False}}
_slow = []


def drive(script):
    cfg, ops = script[0], script[1:]
    style = shash(script)
    ev = []
    objs, open_, byt, want = [], set(), {}, {}
    W = {}

    def init(self, k):
        objs.append(self)
        i = len(objs)
        t = byt[threading.get_ident()]
        ev.append({"op": "init", "k": k, "t": t, "i": i, "c": [c for c in C if C[c] is type(self)][0]})
        r = W[t].init(want[k])
        if r == "ok":
            ev.append({"op": "end", "k": k, "i": i, "o": "ok"})
        else:
            e = type("Err%d" % k, ((ValueError, KeyError, Exception, TypeError)[(style + k) % 4],), {})()
            ev.append({"op": "end", "k": k, "i": i, "o": enc(e)})
            raise e

    def construct(t, k, c, f):
        byt[threading.get_ident()] = t
        kw = {"sync": bool(k % 2), "asynchronous": bool(k % 3)} if f == "both" else FLAGS[f]
        try:
            x = C[c](k, **kw) if (style + k) % 2 else C[c](token=k, **kw)
        except BaseException as e:
            ev.append({"op": "ret", "k": k, "o": enc(e), "i": 0, "mode": "", "c": 0})
        else:
            r = x.m()
            mode = "sync"
            if inspect.isawaitable(r):
                mode = "async"
                r.close() if hasattr(r, "close") else None
            ev.append({"op": "ret", "k": k, "o": "ok", "i": next((i + 1 for i, o in enumerate(objs) if o is x), 0), "mode": mode, "c": next((c for c in C if C[c] is type(x)), 0)})
        open_.discard(k)

    def wait(limit):
        end, n = None, 0
        while any(w.busy for w in W.values()):
            n += 1
            if n > 30:
                if end is None:
                    end = time.monotonic() + limit
                elif time.monotonic() > end:
                    return False
                time.sleep(0.0003)
            else:
                time.sleep(0)
        return True

    async def main(loop):
        k = 0
        for o in ops:
            t = o["t"]
            if t not in W:
                W[t] = Worker()
            w = W[t]
            if w.busy:
                continue
            if o["op"] == "new":
                x = (o["c"], cfg["defs"][o["c"] - 1] if o["f"] in ("dflt", "both") else "sync" if o["f"] in ("sync+", "asyn-") else "async")
                if w.frames and (o["f"] == "both" or not all(y[0] < x[0] or y[0] == x[0] and y[1] != x[1] for y in w.frames)):
                    continue        # would deadlock or recurse by itself
                k += 1
                want[k] = x
                open_.add(k)
                ev.append({"op": "call", "k": k, "t": t, "c": o["c"], "f": o["f"]})
                w.busy = True
                w.q.put(lambda t=t, k=k, o=o: construct(t, k, o["c"], o["f"]))
            elif w.frames:
                w.busy = True
                w.q.put(o["o"])
            # a thread may legitimately wait for another one which is inside __init__
            others = any(v.frames for u, v in W.items() if u != t) or any(v.busy for u, v in W.items() if u != t)
            if not wait((0.004 if len(_slow) < 60 else 0.001) if others else 1.0):
                _slow.append(1)
        for _ in range(200):
            for w in W.values():
                if w.frames and not w.busy:
                    w.busy = True
                    w.q.put("ok")
            wait(0.02)
            if not any(w.frames for w in W.values()):
                break
        wait(3.0 if len([1 for x in _slow if x == 2]) < 5 else 0.3)
        if any(w.busy for w in W.values()):
            _slow.append(2)
        ev.append({"op": "quiet"})
        n = len(ev)
        for w in W.values():
            w.q.put("x" if w.frames else None)
            w.q.put(None)
        del ev[n:]
    C = classes(cfg, style, init)
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "ret" and e["o"] == "ok":
            yield "other", ev[:i] + [dict(e, i=e["i"] + 9)] + ev[i + 1:]
            yield "mode", ev[:i] + [dict(e, mode="async" if e["mode"] == "sync" else "sync")] + ev[i + 1:]
            yield "never", ev[:i] + ev[i + 1:]
            yield "class", ev[:i] + [dict(e, c=e["c"] + 1)] + ev[i + 1:]
        if e["op"] == "init":
            yield "twice", ev[:i + 1] + [dict(e, i=e["i"] + 9)] + ev[i + 1:]
        if e["op"] == "ret" and e["o"] != "ok":
            yield "fails", ev[:i] + [dict(e, o="E:Other")] + ev[i + 1:]
