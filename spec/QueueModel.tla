----------------------------- MODULE QueueModel ---------------------------
(* asyncio.Queue (getter and putter futures) under the bulk loops of        *)
(* a_sync/primitives/queue.py.  Tasks are numbered; each is a getter or a   *)
(* putter.                                                                  *)
EXTENDS QueueMon, TLC, Json
CONSTANTS NTasks, NItems, Sizes, MaxMulti, MaxLen, MinEmit, W, PassOn, Burst
VARIABLES s, h
vars == <<s, h>>
T == 1..NTasks
GetKinds == {<<"one", 1, FALSE>>, <<"all", 1, FALSE>>} \cup {<<"multi", i, b>> : i \in 2..MaxMulti, b \in BOOLEAN}
Fresh(m) == [ph |-> [t \in T |-> "new"], k |-> [t \in T |-> <<"one", 1, FALSE>>], acc |-> [t \in T |-> <<>>], x |-> [t \in T |-> 0],
             must |-> {}, q |-> <<>>, gs |-> <<>>, ps |-> <<>>, rq |-> <<>>, next |-> 1, max |-> m, mon |-> Init0([max |-> m]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Ph(a, t, p) == [a EXCEPT !.ph[t] = p]
Rdy(a, t) == [a EXCEPT !.rq = Append(@, t)]
Full(a) == a.max > 0 /\ Len(a.q) >= a.max
RECURSIVE WakeG(_)
WakeG(a) == IF a.gs = <<>> THEN a
            ELSE LET t == Head(a.gs)
                     b == [a EXCEPT !.gs = Tail(@)]
                 IN IF a.ph[t] = "gwait" THEN Rdy(Ph(b, t, "gwoken"), t) ELSE WakeG(b)
RECURSIVE WakeP(_)
WakeP(a) == IF a.ps = <<>> THEN a
            ELSE LET t == Head(a.ps)
                     b == [a EXCEPT !.ps = Tail(@)]
                 IN IF a.ph[t] = "pwait" THEN Rdy(Ph(b, t, "pwoken"), t) ELSE WakeP(b)
PopOne(a, t) == WakeP([a EXCEPT !.q = Tail(@), !.acc[t] = Append(@, Head(a.q))])
Res(a, t) == Ph(Emit(a, [op |-> "gres", g |-> t, r |-> a.acc[t]]), t, "done")
BlockG(a, t) == Ph([a EXCEPT !.gs = Append(@, t)], t, "gwait")
RECURSIVE TakeN(_, _, _)
TakeN(a, t, n) == IF n = 0 \/ a.q = <<>> THEN a ELSE TakeN(PopOne(a, t), t, n - 1)
Want(a, t) == a.k[t][2] - Len(a.acc[t])
\* a getter task runs until it blocks or returns
RunG(a, t) ==
  CASE a.k[t][1] = "one" -> IF a.q = <<>> THEN BlockG(a, t) ELSE Res(PopOne(a, t), t)
    [] a.k[t][1] = "all" -> IF a.q = <<>> THEN BlockG(a, t)
                            ELSE IF a.ph[t] = "gwoken" THEN Res(PopOne(a, t), t)
                            ELSE Res(TakeN(a, t, Len(a.q)), t)
    [] OTHER -> LET b == TakeN(a, t, Want(a, t))
                IN IF Want(b, t) = 0 \/ (b.acc[t] # <<>> /\ b.k[t][3]) THEN Res(b, t) ELSE BlockG(b, t)
PutNow(a, x, t) == WakeG(Emit([a EXCEPT !.q = Append(@, x)], [op |-> "put", x |-> x, p |-> t]))
RunP(a, t) == IF Full(a) THEN Ph([a EXCEPT !.ps = Append(@, t)], t, "pwait") ELSE Ph(PutNow(a, a.x[t], t), t, "done")
GEnd(a, t) == Ph(Emit(a, [op |-> "gend", g |-> t, how |-> "cancelled"]), t, "done")
PEnd(a, t) == Ph(Emit(a, [op |-> "pend", p |-> t, how |-> "cancelled"]), t, "done")
RunTask(a0, t) ==
  LET a == [a0 EXCEPT !.must = @ \ {t}]
      c == t \in a0.must
  IN CASE a.ph[t] = "gnew"   -> IF c THEN Ph(a, t, "done")
                                ELSE RunG(Emit(a, [op |-> "gstart", g |-> t, k |-> a.k[t][1], i |-> a.k[t][2], less |-> a.k[t][3]]), t)
       [] a.ph[t] = "pnew"   -> IF c THEN Ph(a, t, "done")
                                ELSE RunP(Emit(a, [op |-> "pstart", p |-> t, x |-> a.x[t]]), t)
       [] a.ph[t] = "gwoken" -> IF c THEN GEnd(IF PassOn /\ a.q # <<>> THEN WakeG(a) ELSE a, t) ELSE RunG(a, t)
       [] a.ph[t] = "pwoken" -> IF c THEN PEnd(IF PassOn /\ ~Full(a) THEN WakeP(a) ELSE a, t) ELSE RunP(a, t)
       [] a.ph[t] = "gcan"   -> GEnd([a EXCEPT !.gs = Without(@, t)], t)
       [] a.ph[t] = "pcan"   -> PEnd([a EXCEPT !.ps = Without(@, t)], t)
       [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(RunTask([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
Quiet(a) == IF a.rq = <<>> THEN Emit(a, [op |-> "quiet"]) ELSE a
NowRes(a, k, exc, n) ==
  LET b == TakeN([a EXCEPT !.acc[1] = <<>>], 1, IF exc = "" THEN n ELSE 0)
      c == Emit(b, [op |-> "now", k |-> k[1], i |-> k[2], less |-> k[3], exc |-> exc, r |-> b.acc[1]])
  IN [c EXCEPT !.acc[1] = a.acc[1]]
Now(a, k) ==
  LET n == Len(a.q)
  IN CASE k[1] = "one" -> NowRes(a, k, IF n = 0 THEN "QueueEmpty" ELSE "", 1)
       [] k[1] = "all" -> NowRes(a, k, IF n = 0 THEN "QueueEmpty" ELSE "", n)
       [] OTHER -> NowRes(a, k, IF n = 0 \/ (n < k[2] /\ ~k[3]) THEN "QueueEmpty" ELSE "", Min2(n, k[2]))
Do(a, o) ==
  CASE o.op = "get"    -> Rdy(Ph([a EXCEPT !.k[o.t] = o.k], o.t, "gnew"), o.t)
    [] o.op = "put"    -> Rdy(Ph([a EXCEPT !.x[o.t] = a.next, !.next = @ + 1], o.t, "pnew"), o.t)
    [] o.op = "putn"   -> IF Full(a) THEN Emit([a EXCEPT !.next = @ + 1], [op |-> "full", x |-> a.next])
                          ELSE PutNow([a EXCEPT !.next = @ + 1], a.next, 0)
    [] o.op = "now"    -> Now(a, o.k)
    [] o.op = "cancel" ->
         LET b == Emit(a, [op |-> "cancel", t |-> o.t])
         IN IF a.ph[o.t] = "gwait" THEN Rdy(Ph(b, o.t, "gcan"), o.t)
            ELSE IF a.ph[o.t] = "pwait" THEN Rdy(Ph(b, o.t, "pcan"), o.t)
            ELSE [b EXCEPT !.must = @ \cup {o.t}]
    [] o.op = "tick"   -> Quiet(Loop(a, Len(a.rq)))
    [] OTHER           -> a
Can(a, o) ==
  CASE o.op \in {"get", "put"} -> a.ph[o.t] = "new" /\ (\A u \in 1..(o.t-1) : a.ph[u] # "new") /\ (o.op = "put" => a.next <= NItems)
    [] o.op = "putn"   -> a.next <= NItems
    [] o.op = "now"    -> TRUE
    [] o.op = "cancel" -> a.ph[o.t] \in {"gwait", "gwoken", "pwait", "pwoken"} /\ o.t \notin a.must /\ ~(a.k[o.t][1] = "multi" /\ ~a.k[o.t][3])
    [] o.op = "tick"   -> a.rq # <<>>
    [] OTHER           -> FALSE
Ops == (IF Burst THEN [op : {"get"}, t : T, k : {<<"all", 1, FALSE>>, <<"multi", MaxMulti, TRUE>>}] ELSE [op : {"get"}, t : T, k : GetKinds] \cup [op : {"now"}, k : GetKinds])
       \cup [op : {"put", "cancel"}, t : T] \cup {[op |-> "putn"]} \cup [op : {"tick"}, w : 1..W]
Init == \E m \in Sizes : s = Fresh(m) /\ h = <<[max |-> m]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
\* all calls with too few items leave the same state: they need no further exploration
View == s
NoClauseViolated == s.bad = {}
\* items are conserved: entered = in the queue + held by getters + delivered
Conserved == \A x \in Range(s.q) : x \in Range(s.mon.q)
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit) => PrintT(ToJson(h))
============================================================================
