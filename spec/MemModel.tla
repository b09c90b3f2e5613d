----------------------------- MODULE MemModel -----------------------------
(* Descriptors as the code does them: a bound method per instance, found in *)
(* the instance's own cache (for overridden members under a key of its own),*)
(* mode = call flag, else the member's default, else the instance's flag.   *)
(* An access is chosen in two steps: which member ("sel"), then how ("go"). *)
EXTENDS MemMon, TLC, Json
CONSTANTS MaxI, MaxK, Mems, MaxLen, MinEmit, W, PerInstance
VARIABLES s, h
vars == <<s, h>>
I == 1..MaxI
Fresh(c) == [c |-> c, alive |-> {}, made |-> 0, n |-> 0, x |-> 0, sel |-> <<>>, pend |-> <<>>, bound |-> Empty, cache |-> Empty, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
\* the instance the bound member really belongs to
Owner(a, i, m) == IF PerInstance THEN i ELSE GetOr(a.bound, m, i)
RECURSIVE Exec(_, _, _, _, _, _)
\* run the getter/method at one level; the outcome is left in .out
Exec(a, i, m, k, lvl, good) ==
  LET key == <<i, m, k, lvl>> IN
  IF m \in Caches /\ key \in DOMAIN a.cache THEN [r |-> a, o |-> a.cache[key], g |-> TRUE]
  ELSE LET b == Emit([a EXCEPT !.x = @ + 1], [op |-> "body", i |-> i, m |-> m, k |-> k, lvl |-> lvl, args |-> k])
           own == b.x
           d == IF lvl = "sub"
                THEN LET q == Exec(b, i, m, k, "base", good)
                     IN [q EXCEPT !.r = Emit(@, [op |-> "inner", i |-> i, m |-> m, k |-> k, o |-> q.o])]
                ELSE [r |-> b, o |-> <<IF good THEN "=" ELSE "!", own>>, g |-> good]
           o == IF lvl = "sub" /\ d.g THEN <<"=", own>> ELSE d.o
           f == Emit(d.r, [op |-> "end", i |-> i, m |-> m, k |-> k, lvl |-> lvl, o |-> o, good |-> d.g])
       IN [r |-> IF m \in Caches /\ d.g THEN [f EXCEPT !.cache = Put(@, key, o)] ELSE f, o |-> o, g |-> d.g]
Do(a, o) ==
  CASE o.op = "new" -> LET i == a.made + 1 IN Emit([a EXCEPT !.made = i, !.alive = @ \cup {i}], [op |-> "new", i |-> i, cls |-> o.cls, f |-> o.f])
    [] o.op = "gone" -> Emit([a EXCEPT !.alive = @ \ {o.i}], [op |-> "gone", i |-> o.i])
    [] o.op = "sel" -> [a EXCEPT !.sel = <<o.i, o.m, o.path>>]
    [] o.op = "go" ->
         LET k == a.n + 1
             i == a.sel[1]  m == a.sel[2]
             c == [k |-> k, i |-> i, m |-> m, path |-> a.sel[3], flag |-> o.flag, ctx |-> o.ctx, args |-> k]
             b == Emit([a EXCEPT !.n = k, !.sel = <<>>, !.bound = IF m \in DOMAIN @ THEN @ ELSE Put(@, m, i)], [op |-> "call"] @@ c)
             md == Mode(b.mon, c)
         IN IF md = "refuse" THEN Emit(b, [op |-> "ret", k |-> k, kind |-> "raise", o |-> "!E:TooManyFlags"])
            ELSE IF Clash(b.mon, c) THEN Emit(b, [op |-> "ret", k |-> k, kind |-> "raise", o |-> "!E:SyncModeInAsyncContextError"])
            ELSE IF md = "async" /\ ~(m = "sm" /\ o.flag = "none")
                 THEN [Emit(b, [op |-> "ret", k |-> k, kind |-> "awaitable", o |-> ""]) EXCEPT !.pend = Append(@, <<k, i, m, o.o>>)]
            ELSE LET q == Exec(b, Owner(b, i, m), m, Kk(m, k), Top(b.mon, i, m), o.o = "v")
                 IN Emit(q.r, [op |-> "ret", k |-> k, kind |-> IF q.g THEN "value" ELSE "raise", o |-> q.o])
    [] o.op = "await" -> \* the oldest awaitable
         LET p == Head(a.pend)
             b == Emit([a EXCEPT !.pend = Tail(@)], [op |-> "await", k |-> p[1]])
             q == Exec(b, Owner(b, p[2], p[3]), p[3], Kk(p[3], p[1]), Top(b.mon, p[2], p[3]), p[4] = "v")
         IN Emit(q.r, [op |-> "res", k |-> p[1], o |-> q.o])
    [] o.op = "adv" -> Emit(a, [op |-> "adv", late |-> 0])
    [] OTHER -> a
Places == {"attr", "base", "grand", "init", "late", "over"}
\* with a flag on the class only, every instance has the class's mode
Own(a) == IF a.c.place \in {"attr", "base", "grand"} THEN {"dflt"} ELSE IF a.c.place = "late" THEN {"sync", "async"} ELSE {"dflt", "sync", "async"}
Can(a, o) ==
  CASE o.op = "new" -> a.made < MaxI /\ o.f \in Own(a) /\ a.sel = <<>>
    [] o.op = "gone" -> o.i \in a.alive /\ a.sel = <<>> /\ a.n > 0 /\ \A j \in DOMAIN a.pend : a.pend[j][2] # o.i
    [] o.op = "sel" -> a.sel = <<>> /\ o.i \in a.alive /\ a.n < MaxK /\ (o.path = "direct" \/ o.m \notin Meths)
    [] o.op = "go" -> a.sel # <<>> /\ (a.sel[2] \notin Meths /\ a.sel[3] = "direct" => o.flag = "none")
    [] o.op = "await" -> a.pend # <<>> /\ a.sel = <<>>
    [] o.op = "adv" -> a.sel = <<>> /\ a.n > 0
    [] OTHER -> FALSE
FlagSet == {"none", "sync+", "sync-", "asyn+", "asyn-", "both"}
Ops == [op : {"new"}, cls : {"base", "sub"}, f : {"dflt", "sync", "async"}] \cup [op : {"gone"}, i : I] \cup
       [op : {"sel"}, i : I, m : Mems, path : {"direct", "hidden"}] \cup
       [op : {"go"}, flag : FlagSet, ctx : {"loop", "bare", "idle"}, o : {"v", "x"}] \cup
       [op : {"await"}, w : 1..W] \cup [op : {"adv"}, t : {100, 310}]
Cfgs == [place : Places, word : {"sync", "asynchronous"}, sync : BOOLEAN, doc : {FALSE}]
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
