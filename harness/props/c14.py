"""C14 gather."""
from ..gath import *

MONITOR = "GathMon"
MUST_SEE = ["begin", "start", "comp", "res", "resm", "raise", "quiet"]
ASSUMPTIONS = ["completions between two quiescent points count as simultaneous when the awaitables are of different kinds (they take a different number of loop iterations to be noticed)"]
KINDS = {"gather", "gmap"}


def spec(tier):
    th = tier == "thorough"
    base = dict(MaxN=3, OpKinds=KINDS, Items={"same"}, Tmos={0}, MaxLen=99, MinEmit=99, W=1, Fifo=True, KeepDone=True, Dts={5})
    inv = ["NoClauseViolated"]
    sim = dict(base, Items={"same", "mixed"})
    return dict(
        models=[dict(module="GathModel", constants=dict(base, MaxN=4 if th else 3), invariants=inv, view="View", workers=4),
                dict(module="GathModel", constants=dict(base, Fifo=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="GathModel", mode="all", constants=dict(base, Items={"same", "mixed"}, MaxN=3 if th else 2), cap=40000 if th else 4000),
              dict(module="GathModel", mode="sim", constants=dict(sim, MaxN=5, MinEmit=14, W=2), num=12000 if th else 2500, depth=15),
              dict(module="GathModel", mode="sim", constants=dict(sim, MaxN=9, MinEmit=24, W=6), num=8000 if th else 1500, depth=25)])


def drive(script):
    return drive_gath(script)


corruptions = gath_corruptions
