"""C15 as_completed."""
from ..gath import *

MONITOR = "GathMon"
MUST_SEE = ["begin", "start", "comp", "adv", "want", "item", "fail", "tmo", "endit", "quiet"]
ASSUMPTIONS = ["completions between two quiescent points count as simultaneous when the awaitables are of different kinds",
               "awaitables given to one iterable are distinct", "a timeout of 0 is not generated (it means none for a mapping)"]
KINDS = {"ac", "acmap"}


def spec(tier):
    th = tier == "thorough"
    base = dict(MaxN=2, OpKinds=KINDS, Items={"same"}, Tmos={0, 5}, MaxLen=99, MinEmit=99, W=1, Fifo=True, KeepDone=True, Dts={3})
    inv = ["NoClauseViolated"]
    sim = dict(base, Items={"same", "mixed"}, Tmos={0, 5, 12, 20})
    return dict(
        models=[dict(module="GathModel", constants=dict(base, MaxN=3, Tmos={0, 5} if th else {5}), invariants=inv, view="View", workers=4),
                dict(module="GathModel", constants=dict(base, Fifo=False), invariants=inv, view="View", expect_violation=True, workers=1),
                dict(module="GathModel", constants=dict(base, KeepDone=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="GathModel", mode="all", constants=dict(base, Tmos={5}), cap=40000 if th else 4000),
              dict(module="GathModel", mode="sim", constants=dict(sim, MaxN=5, MinEmit=18, W=2, Dts={3, 4, 8}), num=12000 if th else 2500, depth=19),
              dict(module="GathModel", mode="sim", constants=dict(sim, MaxN=8, MinEmit=28, W=5, Dts={1, 3, 7, 11}), num=8000 if th else 1500, depth=29)])


def drive(script):
    return drive_gath(script)


corruptions = gath_corruptions
