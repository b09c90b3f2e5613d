----------------------------- MODULE SingModel ----------------------------
(* Double-checked locking: one reentrant lock per class, instances by mode. *)
(* A thread is idle, inside a stack of __init__s, or waiting for a lock.    *)
EXTENDS SingMon, TLC, Json
CONSTANTS MaxT, Classes, MaxK, MaxLen, MinEmit, W, Recheck
VARIABLES s, h
vars == <<s, h>>
T == 1..MaxT
Fresh(c) == [c |-> c, n |-> 0, stack |-> [t \in T |-> <<>>], wait |-> [t \in T |-> 0], queue |-> <<>>, inst |-> Empty, i |-> 0, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
K(a, k) == Key(a.mon, k)
Ret(a, t, k) == Emit(a, [op |-> "ret", k |-> k, o |-> "ok", i |-> a.inst[K(a, k)], mode |-> K(a, k)[2], c |-> K(a, k)[1]])
Held(a, c, t) == \E u \in T \ {t} : \E j \in DOMAIN a.stack[u] : K(a, a.stack[u][j][1])[1] = c
InitIt(a, t, k) == LET b == Emit([a EXCEPT !.i = @ + 1], [op |-> "init", k |-> k, t |-> t, i |-> a.i + 1, c |-> K(a, k)[1]])
                   IN [b EXCEPT !.stack[t] = Append(@, <<k, b.i>>)]
Enter(a, t, k, first) ==
  IF K(a, k) \in DOMAIN a.inst /\ (first \/ Recheck) THEN Ret(a, t, k)
  ELSE IF Held(a, K(a, k)[1], t) THEN [a EXCEPT !.wait[t] = k, !.queue = Append(@, t)]
  ELSE InitIt(a, t, k)
RECURSIVE Wake(_)
Wake(a) ==
  LET q == {j \in DOMAIN a.queue : ~Held(a, K(a, a.wait[a.queue[j]])[1], a.queue[j])} IN
  IF q = {} THEN a
  ELSE LET t == a.queue[MinOf(q)]
           k == a.wait[t]
       IN Wake(Enter([a EXCEPT !.wait[t] = 0, !.queue = Without(@, t)], t, k, FALSE))
Do(a, o) ==
  CASE o.op = "new" -> LET k == a.n + 1
                           b == Emit([a EXCEPT !.n = k], [op |-> "call", k |-> k, t |-> o.t, c |-> o.c, f |-> o.f])
                       IN IF o.f = "both" THEN Emit(b, [op |-> "ret", k |-> k, o |-> "E:TooManyFlags"]) ELSE Enter(b, o.t, k, TRUE)
    [] o.op = "end" -> LET p == Last(a.stack[o.t])
                           k == p[1]
                           r == IF o.o = "ok" THEN "ok" ELSE "E:Err" \o ToString(k)
                           b == Emit([a EXCEPT !.stack[o.t] = SubSeq(@, 1, Len(@) - 1)], [op |-> "end", k |-> k, i |-> p[2], o |-> r])
                       IN Wake(IF r = "ok" THEN Ret([b EXCEPT !.inst = Put(@, K(b, k), p[2])], o.t, k) ELSE Emit(b, [op |-> "ret", k |-> k, o |-> r]))
    [] OTHER -> a
Flags(a, c) == IF a.c.place = "init" /\ c # 4 THEN {"dflt", "both"} \cup (IF a.c.word = "sync" THEN {"sync+", "sync-"} ELSE {"asyn+", "asyn-"}) ELSE {"dflt"}
\* inside __init__: the same class with the other mode, or a class further down (locks are taken in one order)
May(a, t, c, f) ==
  IF a.stack[t] = <<>> THEN TRUE
  ELSE f # "both" /\ \A j \in DOMAIN a.stack[t] : LET x == K(a, a.stack[t][j][1]) IN x[1] < c \/ (x[1] = c /\ x[2] # Mode(a.mon, c, f))
Can(a, o) ==
  CASE o.op = "new" -> a.n < MaxK /\ a.wait[o.t] = 0 /\ o.f \in Flags(a, o.c) /\ May(a, o.t, o.c, o.f)
    [] o.op = "end" -> a.stack[o.t] # <<>> /\ a.wait[o.t] = 0
    [] OTHER -> FALSE
Ops == [op : {"new"}, t : T, c : Classes, f : {"dflt", "sync+", "sync-", "asyn+", "asyn-", "both"}] \cup [op : {"end"}, t : T, o : {"ok", "x"}, w : 1..W]
M(b) == IF b THEN "sync" ELSE "async"
\* 2 is a subclass of 1 and 3 of 2; flip: 2 has the other default; 4 is unrelated
Cfg(p, w, b, f) == [place |-> p, word |-> w, sync |-> b, flip |-> f, defs |-> <<M(b), M(b # f), M(b # f), M(b)>>]
Cfgs == {Cfg(p, w, b, f) : p \in {"attr", "base", "init"}, w \in {"sync", "asynchronous"}, b \in BOOLEAN, f \in BOOLEAN}
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
Quiet(a) == Why(a.mon, [op |-> "quiet"]) = {}
NoHang == Quiet(s)
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
