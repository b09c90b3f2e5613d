"""C18 filter and sort."""
from ..views import *

MONITOR = "ViewMon"
MUST_SEE = ["mk", "filter", "sort", "iter", "next", "all"]


def spec(tier):
    th = tier == "thorough"
    base = dict(Srcs={0, 2, 3, 6, 7}, Mks={"able", "ator", "list"}, Views={"filter", "sort"}, MaxObjs=3, MaxIts=2, Fs={1, 2}, Nexts={"a", "s"}, Alls={"await", "mat", "loop"},
                Envs=set(), MaxLen=99, MinEmit=99, W=1, Stable=True, Shared=False)
    inv = ["NoClauseViolated"]
    return dict(
        models=[dict(module="ViewModel", constants=dict(base, Srcs={2, 3, 6, 7} if th else {3, 6}, Mks={"able", "ator"}, MaxObjs=3, MaxIts=2 if th else 1, Nexts={"a"}, Alls={"await"}), invariants=inv, view="View", workers=4),
                dict(module="ViewModel", constants=dict(base, Stable=False, Srcs={3}), invariants=inv, view="View", expect_violation=True, workers=1)],
        gens=[dict(module="ViewModel", mode="all", constants=dict(base, MaxObjs=3 if th else 2, MaxIts=1, Srcs=base["Srcs"] if th else {3, 7}), cap=40000 if th else 4000),
              dict(module="ViewModel", mode="sim", constants=dict(base, MaxObjs=5, MaxIts=4, Nexts={"a", "s", "in"}, Alls={"await", "mat", "loop", "in"}, MinEmit=14, W=2), num=12000 if th else 3000, depth=15),
              dict(module="ViewModel", mode="sim", constants=dict(base, Srcs=set(range(0, 8)), MaxObjs=9, MaxIts=9, MinEmit=36, W=3), num=5000 if th else 1000, depth=37)])


def drive(script):
    return drive_views(script)


corruptions = view_corruptions
