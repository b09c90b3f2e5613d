----------------------------- MODULE SemModel -----------------------------
(* The algorithm of a_sync/primitives/locks/semaphore.pyx on an asyncio     *)
(* loop: a FIFO of runnable callbacks, futures, task cancellation.  One     *)
(* transition = one thing the environment does (start a task, cancel it,    *)
(* tell a holder to release, release from outside) or one loop iteration.   *)
(* Every step feeds the events a user would see to the monitor SemMon.      *)
EXTENDS SemMon, TLC, Json
CONSTANTS NTasks, Permits, MaxLen, MaxXrel, MinEmit, W, ReturnPermit
VARIABLES s, h
vars == <<s, h>>
T == 1..NTasks
(* phase: new, spawned, wait (future pending), woken (future resolved),      *)
(*   cwait (future cancelled), hold, hrel (told to release), done           *)
Fresh(n) == [ph |-> [t \in T |-> "new"], must |-> {}, val |-> n, ws |-> <<>>, rq |-> <<>>,
             x |-> 0, mon |-> Init0([n |-> n]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Ph(a, t, p) == [a EXCEPT !.ph[t] = p]
Rdy(a, t) == [a EXCEPT !.rq = Append(@, t)]
Locked(a) == a.val = 0 \/ \E t \in Range(a.ws) : a.ph[t] # "cwait"
WakeNext(a) ==
  LET p == SelectSeq(a.ws, LAMBDA t : a.ph[t] = "wait")
  IN IF p = <<>> THEN a
     ELSE Rdy(Ph([a EXCEPT !.val = @ - 1], Head(p), "woken"), Head(p))
Release(a) == WakeNext([Emit(a, [op |-> "rel"]) EXCEPT !.val = @ + 1])
Got(a, t) == Ph(Emit(a, [op |-> "got", t |-> t, r |-> "True"]), t, "hold")
End(a, t) == Ph(Emit(a, [op |-> "end", t |-> t, how |-> "cancelled"]), t, "done")
Leave(a, t) == [a EXCEPT !.ws = Without(@, t)]
(* task t runs until it blocks again *)
RunTask(a0, t) ==
  LET a == [a0 EXCEPT !.must = @ \ {t}]
      c == t \in a0.must
  IN CASE a.ph[t] = "spawned" ->
            IF c THEN End(a, t)
            ELSE IF ~Locked(a) THEN Got([a EXCEPT !.val = @ - 1], t)
            ELSE Ph([a EXCEPT !.ws = Append(@, t)], t, "wait")
       [] a.ph[t] = "woken" ->
            LET b == Leave(a, t)
            IN IF c THEN LET b2 == IF ReturnPermit THEN WakeNext([b EXCEPT !.val = @ + 1]) ELSE b
                         IN End(b2, t)
               ELSE Got(IF b.val > 0 THEN WakeNext(b) ELSE b, t)
       [] a.ph[t] = "cwait" -> End(Leave(a, t), t)
       [] a.ph[t] = "hrel"  -> Ph(Release(a), t, "done")
       [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(RunTask([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
Quiet(a) == IF a.rq = <<>> THEN Emit(a, [op |-> "quiet", locked |-> Locked(a)]) ELSE a
Tick(a) == Quiet(Loop(a, Len(a.rq)))

Do(a, o) ==
  CASE o.op = "acq"    -> Rdy(Ph(Emit(a, [op |-> "spawn", t |-> o.t]), o.t, "spawned"), o.t)
    [] o.op = "rel"    -> Rdy(Ph(a, o.t, "hrel"), o.t)
    [] o.op = "xrel"   -> Release([a EXCEPT !.x = @ + 1])
    [] o.op = "cancel" ->
         LET b == Emit(a, [op |-> "cancel", t |-> o.t])
         IN IF a.ph[o.t] = "wait" THEN Rdy(Ph(b, o.t, "cwait"), o.t)
            ELSE IF a.ph[o.t] = "hold" THEN Rdy(Ph(b, o.t, "hrel"), o.t)
            ELSE [b EXCEPT !.must = @ \cup {o.t}]
    [] o.op = "tick"   -> Tick(a)
Can(a, o) ==
  CASE o.op = "acq"    -> a.ph[o.t] = "new" /\ \A u \in 1..(o.t-1) : a.ph[u] # "new"
    [] o.op = "rel"    -> a.ph[o.t] = "hold"
    [] o.op = "xrel"   -> a.x < MaxXrel
    [] o.op = "cancel" -> a.ph[o.t] \in {"spawned", "wait", "woken", "hold"} /\ o.t \notin a.must
    [] o.op = "tick"   -> a.rq # <<>>
Ops == [op : {"acq", "rel", "cancel"}, t : T] \cup {[op |-> "xrel"]} \cup [op : {"tick"}, w : 1..W]

Init == \E n \in Permits : s = Fresh(n) /\ h = <<[n |-> n]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == s
NoClauseViolated == s.bad = {}
\* the algorithm's own bookkeeping: the value is the free permits minus those already handed to woken waiters
Conservation == s.val + Cardinality({t \in T : s.ph[t] = "woken"}) = s.mon.free
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ \A o \in Ops : ~Can(s, o)) => PrintT(ToJson(h))
============================================================================
