"""A deterministic asyncio loop with a virtual clock.

* ``time()`` is virtual; it only moves when :meth:`advance` is called by the driver.
* nothing else is changed: callbacks run FIFO exactly as asyncio schedules them.

The driver is a coroutine which performs operations between loop iterations; ``tick()`` lets the
loop run one iteration, ``settle()`` runs until no callback is ready.
"""
import asyncio
import selectors
import threading


class _Selector(selectors.DefaultSelector):
    """Never blocks for timers: the clock is virtual. Blocks (briefly) only if threads are in flight."""

    block = 0.0

    def select(self, timeout=None):
        return super().select(self.block if (timeout is None or timeout > 0) else 0)


DEBUG = False       # new loops are in debug mode
MISHAPS = []        # exceptions of callbacks, which nobody but the loop gets to see


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._vtime = 1000.0
        self._vsel = _Selector()
        self.foreign = 0        # callbacks handed in by other threads so far
        self.closing = False    # what happens from now on is of no interest
        super().__init__(self._vsel)
        if DEBUG:
            self.set_debug(True)
            self.slow_callback_duration = 1e9

    def time(self):
        return self._vtime

    def call_soon_threadsafe(self, *a, **k):
        h = super().call_soon_threadsafe(*a, **k)
        if threading.get_ident() != self._thread_id:
            self.foreign += 1
        return h

    def call_exception_handler(self, context):
        if not self.closing and context.get("message", "").startswith("Exception in callback"):
            MISHAPS.append((repr(context.get("exception")), context["message"]))
        super().call_exception_handler(context)

    # -- driver API --------------------------------------------------------
    def next_timer(self):
        live = [h.when() for h in self._scheduled if not h.cancelled()]
        return min(live) if live else None

    def advance(self, dt):
        self._vtime = round(self._vtime + dt, 6)

    def ready_count(self):
        return len(self._ready)


class Livelock(Exception):
    pass


async def tick(n=1):
    for _ in range(n):
        await asyncio.sleep(0)


async def settle(loop, limit=20000):
    """Run until no callback is ready (timers excluded). Returns the number of iterations."""
    i = 0
    await asyncio.sleep(0)
    while loop._ready:
        i += 1
        if i > limit:
            raise Livelock()
        await asyncio.sleep(0)
    return i


async def advance(loop, dt):
    """Move the clock by dt, firing each timer at its own time, in order."""
    target = round(loop._vtime + dt, 6)
    last, same = None, 0
    while True:
        await settle(loop)
        w = loop.next_timer()
        if w is None or w > target + 1e-9:
            break
        same = same + 1 if w == last else 0
        last = w
        if same > 100:          # a timer which is due but does not fire
            break
        loop._vtime = max(loop._vtime, round(w, 6))
        await settle(loop)
    loop._vtime = target
    await settle(loop)


class _Policy(asyncio.DefaultEventLoopPolicy):
    mine = None

    def new_event_loop(self):
        if self.mine and self.mine[0] == threading.get_ident() and not self.mine[1].is_closed():
            return self.mine[1]
        return super().new_event_loop()


_policy = _Policy()


def detach(loop):
    """The thread has no event loop any more, as a new thread has none; the next one to be made is ``loop``."""
    asyncio.set_event_loop_policy(_policy)
    _policy.mine = threading.get_ident(), loop
    asyncio.set_event_loop(None)


def run(main, before_teardown=lambda: None):
    """Run ``main(loop)``, a coroutine or not, with a fresh VLoop and return its result; leaves the loop closed."""
    loop = VLoop()
    asyncio.set_event_loop(loop)
    errors = []
    loop.set_exception_handler(lambda l, ctx: errors.append(ctx))
    try:
        r = main(loop)
        return loop.run_until_complete(r) if asyncio.iscoroutine(r) else r
    finally:
        before_teardown()
        loop.closing = True
        try:
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pending:
                t.cancel()
            for _ in range(50):
                loop.call_soon(loop.stop)
                loop.run_forever()
                if all(t.done() for t in pending):
                    break
        finally:
            asyncio.set_event_loop(None)
            loop.close()
