"""C11 TaskMapping: one task per key, every key reported with its own result."""
from ..mapping import *

MONITOR = "MapMon"
MUST_SEE = ["get", "avail", "eos", "sfail", "call", "end", "begin", "want", "item", "endit", "raise", "res", "size", "left", "again", "res2", "quiet", "kill"]
ASSUMPTIONS = ["falsy iterables (an empty list) are refused by design (_EmptySequenceError) and not generated",
               "in consuming modes item access to keys that the sources also yield is not mixed in"]
MODES = {"await", "gather", "aiter", "map", "mapit", "keys", "values", "items"}


def spec(tier):
    th = tier == "thorough"
    base = dict(NKeys=2, NSrcs={0, 1, 2}, Concs={0, 1}, Modes={"await", "aiter", "keys"}, Kinds={"list", "agen"}, MaxFeed=3 if th else 2, Vals=[1, 2, 0, 2, 5, 0], Fails=True,
                MaxLen=99, MinEmit=99, W=1, Dedup=True, KillRest=True, Calm=False, Cancels=False)
    inv = ["NoClauseViolated", "Bounded"]
    sim = dict(base, NKeys=5, Concs={0, 1, 2}, Modes=MODES, Kinds={"list", "gen", "set", "agen", "await"}, W=3)
    return dict(
        models=[dict(module="MapModel", constants=base, invariants=inv, view="View", workers=4),
                dict(module="MapModel", constants=dict(base, Dedup=False), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="MapModel", mode="sim", constants=dict(sim, MaxFeed=3, NKeys=3, NSrcs={1, 2}, MinEmit=12), num=20000 if th else 3500, depth=13),
              dict(module="MapModel", mode="sim", constants=dict(sim, MaxFeed=8, NSrcs={0, 1, 2}, MinEmit=24), num=15000 if th else 3500, depth=25),
              dict(module="MapModel", mode="sim", constants=dict(sim, MaxFeed=9, Fails=False, MinEmit=30, NSrcs={1, 2}), num=15000 if th else 2500, depth=31),
              dict(module="MapModel", mode="sim", constants=dict(sim, Modes={"mapit", "aiter", "map"}, Kinds={"agen"}, NSrcs={1}, Concs={0, 2}, MaxFeed=9, W=2, MinEmit=26, Calm=True, Fails=False), num=6000 if th else 1500, depth=27)])


def drive(script):
    return drive_map(script)


corruptions = map_corruptions
