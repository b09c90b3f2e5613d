"""C07 ProcessingQueue."""
from ..procq import *

MONITOR = "ProcMon"
MUST_SEE = ["sub", "got", "start", "end", "fut", "fcancel", "close", "jstart", "jdone", "quiet"]


def spec(tier):
    th = tier == "thorough"
    base = dict(NJobs=4 if th else 3, NWs={1, 2}, Prios={0}, Kinds={"hold", "ret", "exc"}, MaxLen=99, MinEmit=99, W=1, Survive=True)
    inv = ["NoClauseViolated", "WorkerBound"]
    return dict(
        models=[dict(module="ProcModel", constants=base, invariants=inv, view="View"),
                dict(module="ProcModel", constants=dict(base, NJobs=3, Survive=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="ProcModel", mode="all", constants=dict(base, NJobs=3, Kinds={"hold", "exc"}), cap=60000 if th else 5000),
              dict(module="ProcModel", mode="sim", constants=dict(base, NJobs=9, NWs={1, 2, 3}, MinEmit=28, W=6), num=15000 if th else 3000, depth=29),
              dict(module="ProcModel", mode="sim", constants=dict(base, NJobs=20, NWs={1, 4}, MinEmit=55, W=8), num=4000 if th else 500, depth=56)])


def drive(script):
    return drive_proc(script, False)


def corruptions(cfg, ev):
    for i, e in enumerate(ev):
        if e["op"] == "start":
            yield "started twice", ev[:i + 1] + [e] + ev[i + 1:]
            yield "wrong arguments", ev[:i] + [dict(e, a="(0;)")] + ev[i + 1:]
        if e["op"] == "fut" and e["o"] != "cancelled":
            yield "future lost", ev[:i] + ev[i + 1:]
            yield "wrong outcome", ev[:i] + [dict(e, o=e["o"] + "x")] + ev[i + 1:]
        if e["op"] == "close" and any(x["op"] == "got" for x in ev[i:]):
            yield "closed queue accepts", ev[:i + 1] + [dict(x, r="fut") if x["op"] == "got" else x for x in ev[i + 1:]]
