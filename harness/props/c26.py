"""C26 the executors."""
import asyncio, collections, json, os, queue, subprocess, sys, threading
from ..common import *
from ..threads import wait_for

MONITOR = "ExecMon"
MUST_SEE = ["sub", "subd", "start", "end", "res", "cancel", "quiet", "down", "downd"]
LIMIT = 60
ASSUMPTIONS = ["the time of an idle worker is over when the driver says so (a queue of the driver's is given to the executor)", "functions raise ordinary exceptions",
               "functions submitted to process pools are pickled correctly"]


def spec(tier):
    th = tier == "thorough"
    base = dict(Ns={1, 2, 3}, Kinds={"prune", "pool"}, MaxK=25, MaxLen=99, MinEmit=40, W=1, Debt=True, Claim=True)
    inv = ["NoClauseViolated", "Accounts"]
    return dict(
        models=[dict(module="ExecModel", constants=dict(base, Ns={0, 1, 2}, MaxK=6 if th else 5, MaxLen=13 if th else 10), invariants=inv, view="View", workers=4),
                dict(module="ExecModel", constants=dict(base, Ns={2}, Kinds={"prune"}, MaxK=6, MaxLen=12, Debt=False), invariants=["NoClauseViolated"], view="View", expect_violation=True, workers=1),
                dict(module="ExecModel", constants=dict(base, Ns={2}, Kinds={"prune"}, MaxK=6, MaxLen=12, Claim=False), invariants=["NoClauseViolated"], view="View", expect_violation=True, workers=1)],
        gens=[dict(module="ExecModel", mode="all", constants=dict(base, Ns={0, 1, 2}, MaxK=4, MaxLen=8), cap=20000 if th else 1500),
              dict(module="ExecModel", mode="sim", constants=dict(base, Ns={1, 2}, Kinds={"prune"}), num=5000 if th else 800, depth=41),
              dict(module="ExecModel", mode="sim", constants=dict(base, Ns={2, 3, 4}, Kinds={"prune"}), num=5000 if th else 800, depth=41),
              dict(module="ExecModel", mode="sim", constants=dict(base, Ns={0, 1, 3}, Kinds={"pool"}), num=1000 if th else 200, depth=41)])


def extra_scripts(tier, rng):
    """Process pools; real timeouts."""
    out = []
    for i in range(16 if tier == "thorough" else 4):
        out.append([{"n": rng.choice([1, 2]), "kind": "process"}] + [{"op": "sub", "o": rng.choice("==!")} for _ in range(rng.randrange(1, 9))])
    for i in range(64 if tier == "thorough" else 16):
        out.append([{"n": rng.choice([1, 2, 3, 8]), "kind": "timeout"}] + [{"op": "sub", "o": rng.choice("==!"), "w": rng.randrange(0, 6)} for _ in range(rng.randrange(20, 80))])
    return out


class Line:
    """The queue of the executor: hands items to the workers in turn, and lets the driver decide when a worker's time is over."""

    def __init__(self):
        self.c = threading.Condition()
        self.items, self.waiting, self.limbo, self.over, self.told, self.calls = collections.deque(), [], [], set(), set(), 0

    def put(self, x, block=True, timeout=None):
        with self.c:
            self.items.append(x)
            self.c.notify_all()

    put_nowait = put

    def get_nowait(self):
        with self.c:
            if not self.items:
                raise queue.Empty
            return self.items.popleft()

    def get(self, block=True, timeout=None):
        if not block:
            return self.get_nowait()
        t = object()
        with self.c:
            self.waiting.append(t)
            self.calls += 1
            while True:
                if t in self.over:
                    self.waiting.remove(t)
                    self.limbo.append(t)
                    while t not in self.told:
                        self.c.wait()
                    self.limbo.remove(t)
                    raise queue.Empty
                if self.items and self.waiting[0] is t:
                    self.waiting.pop(0)
                    x = self.items.popleft()
                    self.c.notify_all()
                    return x
                self.c.wait()

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def expire(self, w):
        with self.c:
            if self.waiting:
                self.over.add(self.waiting[0 if w == 1 else -1])
                self.c.notify_all()
                return True

    def go(self, w):
        with self.c:
            r = [t for t in self.limbo if t not in self.told]
            if r:
                self.told.add(r[0 if w == 1 else -1])
                self.c.notify_all()
                return True


def arg(q):
    return "a%d" % q


class Fns:
    """The submitted functions: each waits for the driver to tell how it ends."""

    def __init__(self, ev, style, main):
        self.ev, self.style, self.main = ev, style, main
        self.gate, self.how, self.live, self.ended = {}, {}, [], set()

    def fn(self, q):
        self.gate[q] = threading.Event()

        def f(*a, **kw):
            got = a[0] if a else kw.get("x", "?")
            if len(a) + len(kw) != 1:
                got = "?"
            self.ev.append({"op": "start", "k": q, "a": got, "caller": threading.get_ident() == self.main})
            self.live.append(q)
            if threading.get_ident() != self.main:
                self.gate[q].wait()
            self.live.remove(q)
            if self.how.get(q) is None:
                return
            try:
                return self.end(q)
            finally:
                self.ended.add(q)
        return f

    def end(self, q):
        if self.how[q] == "=":
            v = [q, None, "v%d" % q, (q, 0), [], ValueError("a value")][(self.style + q) % 6]
            self.ev.append({"op": "end", "k": q, "o": "=" + enc(v)})
            return v
        e = type("Err%d" % q, ((ValueError, KeyError, Exception)[q % 3],), {})()
        self.ev.append({"op": "end", "k": q, "o": "!" + enc(e)})
        raise e


def drive(script):
    cfg, ops = script[0], script[1:]
    style = shash(script)
    ev = []
    if cfg["kind"] == "process":
        return processes(script, cfg, ops, style, ev)
    if cfg["kind"] == "timeout":
        return timeouts(cfg, ops, style, ev)
    from a_sync.executor import AsyncThreadPoolExecutor, PruningThreadPoolExecutor, ThreadPoolExecutor, ProcessPoolExecutor
    n = cfg["n"]
    line = Line()
    F = Fns(ev, style, threading.get_ident())
    off = []

    def log(**e):
        if not off:
            ev.append(e)

    async def main(loop):
        if cfg["kind"] == "prune":
            ex = [lambda: PruningThreadPoolExecutor(n), lambda: PruningThreadPoolExecutor(n, timeout=5), lambda: PruningThreadPoolExecutor(max_workers=n, thread_name_prefix="x")][style % 3]()
            if n:
                ex._work_queue = line
        elif n == 0:
            ex = [AsyncThreadPoolExecutor, ThreadPoolExecutor, ProcessPoolExecutor][style % 3](n)
        else:
            ex = [AsyncThreadPoolExecutor, ThreadPoolExecutor][style % 2](n)
        tasks, begun, res, cut, k, late, down, over = {}, [], set(), set(), 0, set(), [], []

        async def call(q):
            f = F.fn(q)
            begun.append(q)
            if down:
                late.add(q)
            log(op="sub", k=q, a=arg(q))
            z, at = (style + q) % 5, ""
            try:
                if z < 2:
                    r = await (ex.run(f, arg(q)) if z else ex.run(f, x=arg(q)))
                else:
                    at = "" if q in late else "submit raised "      # it should have returned a future
                    t = ex.submit(f, x=arg(q)) if z == 2 else ex.submit(f, arg(q)) if z == 3 else loop.run_in_executor(ex, f, arg(q))
                    at = ""
                    log(op="subd", k=q)
                    r = await t
            except BaseException as e:
                r = "!" + at + how(e)
            else:
                r = "=" + enc(r)
            res.add(q)
            log(op="res", k=q, o=r)

        def calm():
            todo = [q for q in begun if q not in F.ended and q not in F.live and q not in cut and q not in late]
            if any(q not in res for q in F.ended) or any(q not in res for q in cut | late):
                return False
            if len(F.live) < max(n, 1) and todo:
                return False
            if down and not over and not F.live and not todo:
                return False
            return True

        async def quiet():
            await settle(loop)
            if line.limbo:
                await wait_for(loop, calm, 0.005)
            else:
                await wait_for(loop, calm)
                log(op="quiet", w=ex.worker_count_current if n else 0)

        def shut():
            try:
                r = "=" + enc(ex.shutdown(wait=True))
            except BaseException as e:
                r = "!" + enc(e)
            log(op="downd", o=r)
            over.append(1)
        th = None
        try:
            for o in ops:
                op = o["op"]
                if op == "sub":
                    k += 1
                    F.how[k] = o["o"]
                    tasks[k] = loop.create_task(call(k))
                    await quiet()
                elif op == "end":
                    w = sorted(F.live)
                    if w:
                        q = w[0 if o["w"] == 1 else -1]
                        F.how[q] = o["o"]
                        c = line.calls
                        F.gate[q].set()
                        await wait_for(loop, lambda: q in F.ended and (cfg["kind"] == "pool" or line.calls > c))
                        await quiet()
                elif op == "cancel":
                    w = [q for q in begun if q not in res]
                    if w:
                        q = w[0 if o["w"] == 1 else -1]
                        cut.add(q)
                        log(op="cancel", k=q)
                        tasks[q].cancel()
                        await quiet()
                elif op == "expire":
                    m = len(line.limbo) + 1
                    if line.expire(o["w"]):
                        await wait_for(loop, lambda: len(line.limbo) >= m, 0.2)
                elif op == "go":
                    m = len(line.limbo)
                    c, w = line.calls, len(getattr(ex, "_threads", ()))
                    if line.go(o["w"]):
                        await wait_for(loop, lambda: len(line.limbo) < m and (line.calls > c or ex.worker_count_current < w), 0.2)
                    await quiet()
                elif op == "down":
                    log(op="down")
                    down.append(1)
                    th = threading.Thread(target=shut, daemon=True)
                    th.start()
                    await wait_for(loop, lambda: ex._shutdown)
                    await quiet()
            for i in range(60):
                while line.limbo:
                    m = len(line.limbo)
                    line.go(1)
                    await wait_for(loop, lambda: len(line.limbo) < m, 0.2)
                await quiet()
                if not F.live:
                    break
                w = list(F.live)
                for q in w:
                    F.gate[q].set()
                await wait_for(loop, lambda: F.ended.issuperset(w))
        finally:
            off.append(1)
            for q in F.gate:
                F.how[q] = None
                F.gate[q].set()
            with line.c:
                line.told |= set(line.limbo)
                line.c.notify_all()
            ex.shutdown(wait=False)
    guarded(main, ev)
    return cfg, ev


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "start" and cfg["kind"] in ("pool", "prune"):
            yield "twice", ev[:i + 1] + [e] + ev[i + 1:]
            yield "args", ev[:i] + [dict(e, a="other")] + ev[i + 1:]
            yield "thread", ev[:i] + [dict(e, caller=not e["caller"])] + ev[i + 1:]
        if e["op"] == "res" and e["o"][0] == "=" and cfg["kind"] in ("pool", "prune"):
            yield "value", ev[:i] + [dict(e, o="=other")] + ev[i + 1:]
            yield "none", ev[:i] + ev[i + 1:]


PROC = '''
import asyncio, json, sys, os
sys.path.insert(0, sys.argv[1])
n, ops, style = json.loads(sys.argv[2])
from a_sync.executor import AsyncProcessPoolExecutor, ProcessPoolExecutor

def f(x, o=None):
    if o == "!":
        raise KeyError(x)
    return [x, os.getpid()]

async def main():
    ex = [AsyncProcessPoolExecutor, ProcessPoolExecutor][style % 2](n)
    async def call(q, o):
        try:
            r = await [ex.run, ex.submit][(style + q) % 2](f, "a%d" % q, o=o)
            return [1, r[0], r[1] == os.getpid(), r[1]]
        except BaseException as e:
            return [0, repr(e), False, 0]
    out = await asyncio.gather(*[call(q, o) for q, o in enumerate(ops, 1)])
    ex.shutdown()
    print(json.dumps(out))
if __name__ == "__main__":
    asyncio.run(main())
'''


def processes(script, cfg, ops, style, ev):
    """A process pool in a process of its own; the executions are reconstructed from their results."""
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "p.py"), "w") as f:
            f.write(PROC)
        try:
            p = subprocess.run([sys.executable, os.path.join(d, "p.py"), "/repo", json.dumps([cfg["n"], [o["o"] for o in ops], style])], capture_output=True, text=True, timeout=40, cwd=d)
            out = json.loads(p.stdout) if p.returncode == 0 else None
        except subprocess.TimeoutExpired:
            out = None
    pids = set()
    for q, o in enumerate(ops, 1):
        ev.append({"op": "sub", "k": q, "a": arg(q)})
        ok, r, mine, pid = out[q - 1] if out else [0, "no answer", False, 0]
        want = "=" + arg(q) if o["o"] == "=" else "!KeyError('%s')" % arg(q)
        got = ("=" if ok else "!") + r
        if pid:
            pids.add(pid)
        ev.append({"op": "start", "k": q, "a": arg(q), "caller": mine})
        ev.append({"op": "end", "k": q, "o": want})
        ev.append({"op": "res", "k": q, "o": got})
    ev.append({"op": "quiet", "w": len(pids)})
    return cfg, ev


def timeouts(cfg, ops, style, ev):
    """Workers whose time is over after a few milliseconds of real time, while calls keep coming."""
    from a_sync.executor import PruningThreadPoolExecutor
    main_id = threading.get_ident()
    lock = threading.Lock()

    async def main():
        ex = PruningThreadPoolExecutor(cfg["n"], timeout=0.002)

        def f(q, o):
            with lock:
                ev.append({"op": "start", "k": q, "a": arg(q), "caller": threading.get_ident() == main_id})
            import time
            time.sleep((q * 7 + style) % 4 / 1000)
            with lock:
                ev.append({"op": "end", "k": q, "o": "=" + enc(q) if o == "=" else "!E:ValueError"})
            if o == "=":
                return q
            raise ValueError(q)

        async def call(q, o):
            with lock:
                ev.append({"op": "sub", "k": q, "a": arg(q)})
            try:
                r = "=" + enc(await ex.run(f, q, o["o"]))
            except BaseException as e:
                r = "!" + how(e)
            with lock:
                ev.append({"op": "res", "k": q, "o": r})
        ts = []
        for q, o in enumerate(ops, 1):
            ts.append(asyncio.create_task(call(q, o)))
            await asyncio.sleep(o["w"] / 1000)
        await asyncio.wait(ts, timeout=5)
        for t in ts:
            if not t.done():
                break
        with lock:
            ev.append({"op": "quiet", "w": ex.worker_count_current})
        for t in ts:
            t.cancel()
        ex.shutdown(wait=False)
    n = []
    asyncio.run(main())
    cutoff = next((i for i, e in enumerate(ev) if e["op"] == "quiet"), len(ev)) + 1
    del ev[cutoff:]
    return cfg, ev
