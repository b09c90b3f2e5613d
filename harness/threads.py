"""Real threads in the drivers: one-shot helper threads and bounded waiting for executor threads."""
import asyncio, threading, time
from .vloop import VLoop, settle


def in_thread(kind, f):
    """Run f() in a fresh thread: kind "bare" = no event loop there, "idle" = one that does not run."""
    box = []

    def go():
        loop = None
        if kind == "idle":
            loop = VLoop()
            asyncio.set_event_loop(loop)
        try:
            box.append((True, f()))
        except BaseException as e:
            box.append((False, e))
        finally:
            try:
                loop = asyncio.get_event_loop_policy().get_event_loop()
            except RuntimeError:
                pass
            if loop is not None:
                asyncio.set_event_loop(None)
                loop.close()
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join()
    ok, v = box[0]
    if not ok:
        raise v
    return v


async def wait_for(loop, done, limit=3.0, _missed=[]):
    """Let the loop and other threads run until done() holds (or the real-time limit is over: not an error here)."""
    end = None
    await settle(loop)
    n = 0
    while not done():
        n += 1
        if n > 20:
            if end is None:
                end = time.monotonic() + (limit if len(_missed) < 5 else min(limit, 0.3))
            elif time.monotonic() > end:
                if limit >= 1:
                    _missed.append(1)
                return False
            time.sleep(0.0005)
        else:
            time.sleep(0)
        await settle(loop)
    return True
