"""C17 ASync iterables and iterators."""
from ..views import *

MONITOR = "ViewMon"
MUST_SEE = ["mk", "iter", "next", "all"]


def spec(tier):
    th = tier == "thorough"
    base = dict(Srcs={0, 2, 3, 6, 7}, Mks={"able", "ator", "gen", "meth"}, Views=set(), MaxObjs=2, MaxIts=2, Fs={1}, Nexts={"a", "s", "in"}, Alls={"await", "mat", "loop", "in"},
                Envs=set(), MaxLen=99, MinEmit=99, W=1, Stable=True, Shared=False)
    inv = ["NoClauseViolated"]
    env = {"drop", "adv"}
    return dict(
        models=[dict(module="ViewModel", constants=dict(base, Srcs={0, 2, 3, 7} if th else {2, 7}, Mks={"able", "ator"}, MaxIts=3 if th else 2), invariants=inv, view="View", workers=4),
                dict(module="ViewModel", constants=dict(base, Shared=True, Srcs={3}), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="ViewModel", mode="all", constants=dict(base, MaxObjs=1, MaxIts=2, Srcs=base["Srcs"] if th else {3, 7}), cap=30000 if th else 4000),
              dict(module="ViewModel", mode="sim", constants=dict(base, MaxObjs=4, MaxIts=5, Envs=env, MinEmit=16, W=3), num=10000 if th else 2500, depth=17),
              dict(module="ViewModel", mode="sim", constants=dict(base, MaxObjs=9, MaxIts=9, Envs=env, MinEmit=40, W=4), num=5000 if th else 1000, depth=41)])


def drive(script):
    return drive_views(script)


corruptions = view_corruptions
