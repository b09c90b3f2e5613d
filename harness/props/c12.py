"""C12 TaskMapping: concurrency limit, consumption, aggregates, sorted views."""
from ..mapping import *

MONITOR = "MapMon"
MUST_SEE = ["get", "avail", "eos", "sfail", "call", "end", "kill", "cancel", "begin", "item", "endit", "raise", "res", "agg", "sorted", "size", "left", "again", "res2", "quiet"]
ASSUMPTIONS = ["falsy iterables (an empty list) are refused by design (_EmptySequenceError) and not generated",
               "a task is only cancelled by the user while its call runs",
               "with a concurrency limit, cancelling a key's future does not stop a call that is already running in a worker"]
AGGS = {"all", "any", "max", "min", "sum"}
SORTS = {"ksort", "vsort"}


def spec(tier):
    th = tier == "thorough"
    base = dict(NKeys=2, NSrcs={1}, Concs={0, 1}, Modes={"all", "any", "max", "ksort", "vsort", "items", "map"} | (AGGS if th else set()), Kinds={"list", "agen"}, MaxFeed=2, Vals=[1, 2, 0, 2, 5, 0],
                Fails=True, MaxLen=99, MinEmit=99, W=1, Dedup=True, KillRest=True, Calm=False, Cancels=True)
    inv = ["NoClauseViolated", "Bounded"]
    base2 = dict(base, NKeys=3, Concs={1, 2}, Modes={"all", "sum", "vsort", "await"}, Kinds={"list"}, MaxFeed=4, Vals=[0, 3, 1])
    sim = dict(base, NKeys=5, Concs={0, 1, 2, 3}, Kinds={"list", "gen", "set", "agen", "await"}, W=4)
    n = 12000 if th else 2500
    return dict(
        models=[dict(module="MapModel", constants=base, invariants=inv, view="View", workers=3),
                dict(module="MapModel", constants=base2, invariants=inv, view="View", workers=3),
                dict(module="MapModel", constants=dict(base2, KillRest=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="MapModel", mode="sim", constants=dict(sim, Modes=AGGS, MaxFeed=6, Vals=[1, 2, 0, 2, 5, 0], MinEmit=18), num=n, depth=19),
              dict(module="MapModel", mode="sim", constants=dict(sim, Modes=AGGS | SORTS, MaxFeed=6, Fails=False, Cancels=False, Vals=[3, 1, 3, 7, 2, 4], MinEmit=20), num=n, depth=21),
              dict(module="MapModel", mode="sim", constants=dict(sim, Modes=SORTS, MaxFeed=9, Fails=False, Cancels=False, NSrcs={0, 1, 2}, Vals=[4, 1, 3, 1, 0, 5], MinEmit=24), num=n // 2, depth=25),
              dict(module="MapModel", mode="sim", constants=dict(sim, Modes={"await", "gather", "aiter", "map", "mapit", "keys", "values", "items"}, Concs={1, 2, 3}, MaxFeed=9, MinEmit=26), num=n, depth=27),
              dict(module="MapModel", mode="sim", constants=dict(sim, Modes={"mapit", "aiter", "map"}, Kinds={"agen"}, NSrcs={1}, Concs={0, 2}, MaxFeed=9, W=2, MinEmit=26, Calm=True, Fails=False), num=n // 2, depth=27)])


def drive(script):
    return drive_map(script)


corruptions = map_corruptions
