"""python -m harness.worker <ID> <scripts.jsonl> <traces.jsonl>: replays scripts into the real code."""
import importlib, json, sys, os, traceback, logging, warnings
from . import vloop
from .common import shash

ALL = os.environ.get("VERIF_ALL_LOUD", "")       # development: every script that way


class Sink(logging.Handler):
    """Formats every record, as a real handler does, and forgets it."""

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass


def loudness(P):
    """Some scripts run with debug logging or on a loop in debug mode: nothing may depend on it."""
    logging.lastResort = None
    logging.raiseExceptions = False
    lg = logging.getLogger("a_sync")
    lg.propagate = False
    lg.addHandler(Sink())

    def switch(script):
        n = shash(script) % 8 if getattr(P, "LOUD", True) else 0
        loud = n == 5 or "log" in ALL
        logging.disable(logging.NOTSET if loud else logging.CRITICAL)
        lg.setLevel(logging.DEBUG if loud else logging.WARNING)
        vloop.DEBUG = n == 2 or "loop" in ALL
    return switch


def main():
    pid, src, dst = sys.argv[1:4]
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    P = importlib.import_module("harness.props." + pid.lower())
    switch = loudness(P)
    with open(src) as f:
        scripts = [json.loads(x) for x in f]
    with open(dst, "a", buffering=1) as out:
        for s in scripts:
            switch(s)
            del vloop.MISHAPS[:]
            try:
                cfg, ev = P.drive(s)
            except Exception as e:
                traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                cfg, ev = s[0], [{"op": "escaped", "how": repr(e)[:200], "at": "%s:%s" % (tb[-1].name, tb[-1].lineno)}]
            if vloop.MISHAPS and not any(e["op"] == "escaped" for e in ev):
                how, at = vloop.MISHAPS[0]
                ev.append({"op": "escaped", "how": how[:200], "at": at[:120]})
            out.write(json.dumps({"cfg": cfg, "ev": ev}) + "\n")


main()
