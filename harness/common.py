"""Shared by the drivers: event encoding, virtual loop, outcome of a coroutine step."""
import asyncio, json, zlib
from .vloop import VLoop, tick, settle, advance, Livelock, run, detach


def shash(x):
    """A hash that is stable over processes: the drivers' secondary choices depend on the script only."""
    return zlib.crc32(json.dumps(x, sort_keys=True).encode())


def enc(x, depth=0):
    """Every observed value becomes a string, so that TLC can compare any two of them."""
    if x is None or isinstance(x, (bool, int, float, str, bytes)) or type(x).__name__ == "Num":
        return repr(x)
    if isinstance(x, BaseException):
        return "E:" + type(x).__name__ + (":" + str(x)[:60] if type(x).__name__ in OWN else "")
    if depth < 4:
        if isinstance(x, tuple):
            return "(" + ",".join(enc(y, depth + 1) for y in x) + ")"
        if isinstance(x, list):
            return "[" + ",".join(enc(y, depth + 1) for y in x) + "]"
        if isinstance(x, dict):
            return "{" + ",".join(enc(k, depth + 1) + ":" + enc(v, depth + 1) for k, v in x.items()) + "}"
        if isinstance(x, (set, frozenset)):
            return "set(" + ",".join(sorted(enc(y, depth + 1) for y in x)) + ")"
    return "<" + type(x).__name__ + ">"


OWN = {"Boom"}


class Boom(Exception):
    """The exception the drivers' own functions raise."""


def how(e):
    return "cancelled" if isinstance(e, asyncio.CancelledError) else enc(e)


async def try_now(coro):
    """Drive coro by hand: False if it finished at once, True if it would wait (it is then cancelled)."""
    t = coro.__await__() if not hasattr(coro, "send") else coro
    try:
        f = t.send(None)
    except StopIteration:
        return False
    try:
        if f is not None:       # what Task.cancel() does: first the awaited future, then the task
            f._asyncio_future_blocking = False
            f.cancel()
        t.throw(asyncio.CancelledError())
    except (asyncio.CancelledError, StopIteration):
        pass
    return True


def guarded(main, ev):
    """Run main on a virtual loop; anything that escapes the scenario becomes an event."""
    n = []
    try:
        run(main, lambda: n.append(len(ev)))
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        del ev[n[0]:]
        ev.append(escaped(e))
    else:
        del ev[n[0]:]       # what the teardown of the scenario logged


class LoopThread:
    """A thread with its own virtual loop that runs one command at a time, in lock step with the driver."""

    def __init__(self, name=None):
        import threading, queue
        self.q, self.r = queue.SimpleQueue(), queue.SimpleQueue()
        self.th = threading.Thread(target=self._run, daemon=True, name=name)
        self.th.start()

    def _run(self):
        self.loop = VLoop()
        self.loop.set_exception_handler(lambda l, c: None)
        asyncio.set_event_loop(self.loop)
        while True:
            fn = self.q.get()
            if fn is None:
                break
            try:
                self.r.put((True, self.loop.run_until_complete(fn(self.loop))))
            except BaseException as e:
                self.r.put((False, e))
        self.loop.close()
        self.r.put((True, None))

    def do(self, fn):
        """fn(loop) is a coroutine function; runs it in the thread to completion and returns its value."""
        self.q.put(fn)
        ok, v = self.r.get()
        if not ok:
            raise v
        return v

    def abandon(self):
        """End the thread, its tasks staying as they are."""
        self.q.put(None)
        self.r.get()
        self.th.join()

    def close(self):
        async def cancel_all(loop):
            me = asyncio.current_task()
            for t in asyncio.all_tasks(loop):
                if t is not me:
                    t.cancel()
            await settle(loop)
        try:
            self.do(cancel_all)
        finally:
            self.q.put(None)
            self.r.get()


def escaped(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    if isinstance(e, Livelock):
        return {"op": "livelock"}
    return {"op": "escaped", "how": enc(e) + " " + str(e)[:80], "at": "%s:%s" % (tb[-1].name, tb[-1].lineno) if tb else ""}
