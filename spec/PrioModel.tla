----------------------------- MODULE PrioModel ----------------------------
(* The algorithm of prio_semaphore.pyx: one manager per priority with a     *)
(* deque of futures, a heap of managers, permits handed over at release.    *)
EXTENDS PrioMon, TLC, Json
CONSTANTS NTasks, Permits, Prios, MaxLen, MinEmit, W, HandOff
VARIABLES s, h
vars == <<s, h>>
T == 1..NTasks
Fresh(n) == [ph |-> [t \in T |-> "new"], p |-> [t \in T |-> 0], must |-> {}, val |-> n,
             cms |-> Empty,       \* registered managers: priority -> deque of tasks
             rq |-> <<>>, mon |-> Init0([n |-> n]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Ph(a, t, p) == [a EXCEPT !.ph[t] = p]
Rdy(a, t) == [a EXCEPT !.rq = Append(@, t)]
RECURSIVE WakeNext(_)
WakeNext(a) == \* pop managers from the heap, best priority first
  IF DOMAIN a.cms = {} THEN a
  ELSE LET p == MinOf(DOMAIN a.cms)
           q == a.cms[p]
           live == SelectSeq(q, LAMBDA t : a.ph[t] = "wait")
       IN IF live = <<>> THEN WakeNext([a EXCEPT !.cms = Del(@, p)])
          ELSE LET t == Head(live)
                   rest == Drop(q, IndexOf(q, t))
                   b == [a EXCEPT !.cms = IF rest = <<>> THEN Del(@, p) ELSE Put(@, p, rest)]
               IN Rdy(Ph(IF HandOff THEN [b EXCEPT !.val = @ - 1] ELSE b, t, "woken"), t)
Release(a) == WakeNext([a EXCEPT !.val = @ + 1])
Got(a, t) == Ph(Emit(a, [op |-> "got", t |-> t, r |-> "True"]), t, "hold")
End(a, t) == Emit(Ph(a, t, "done"), [op |-> "end", t |-> t, how |-> "cancelled"])
Waiting(a, t) == LET p == a.p[t] IN Ph([a EXCEPT !.cms = Put(@, p, Append(GetOr(@, p, <<>>), t))], t, "wait")
RunTask(a0, t) ==
  LET a == [a0 EXCEPT !.must = @ \ {t}]
      c == t \in a0.must
  IN CASE a.ph[t] = "spawned" ->
            IF c THEN Ph(a, t, "done")
            ELSE LET b == Emit(a, [op |-> "start", t |-> t, p |-> a.p[t]])
                 IN IF b.val > 0 THEN Got([b EXCEPT !.val = @ - 1], t) ELSE Waiting(b, t)
       [] a.ph[t] = "woken" ->
            IF c THEN End(IF HandOff THEN Release(a) ELSE WakeNext(a), t)
            ELSE IF HandOff THEN Got(a, t)
            ELSE IF a.val > 0 THEN Got([a EXCEPT !.val = @ - 1], t) ELSE Waiting(a, t)
       [] a.ph[t] = "cwait" -> End(a, t)
       [] a.ph[t] = "hrel"  -> Ph(Release(Emit(a, [op |-> "rel"])), t, "done")
       [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(RunTask([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
Quiet(a) == IF a.rq = <<>> THEN Emit(a, [op |-> "quiet"]) ELSE a
Do(a, o) ==
  CASE o.op = "acq"    -> Rdy(Ph([a EXCEPT !.p[o.t] = o.p], o.t, "spawned"), o.t)
    [] o.op = "rel"    -> Rdy(Ph(a, o.t, "hrel"), o.t)
    [] o.op = "cancel" ->
         LET b == Emit(a, [op |-> "cancel", t |-> o.t])
         IN IF a.ph[o.t] = "wait" THEN Rdy(Ph(b, o.t, "cwait"), o.t)
            ELSE IF a.ph[o.t] = "hold" THEN Rdy(Ph(b, o.t, "hrel"), o.t)
            ELSE [b EXCEPT !.must = @ \cup {o.t}]
    [] o.op = "tick"   -> Quiet(Loop(a, Len(a.rq)))
Can(a, o) ==
  CASE o.op = "acq"    -> a.ph[o.t] = "new" /\ \A u \in 1..(o.t-1) : a.ph[u] # "new"
    [] o.op = "rel"    -> a.ph[o.t] = "hold"
    [] o.op = "cancel" -> a.ph[o.t] \in {"wait", "woken", "hold"} /\ o.t \notin a.must
    [] o.op = "tick"   -> a.rq # <<>>
Ops == [op : {"acq"}, t : T, p : Prios] \cup [op : {"rel", "cancel"}, t : T] \cup [op : {"tick"}, w : 1..W]
Init == \E n \in Permits : s = Fresh(n) /\ h = <<[n |-> n]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
\* value > 0 implies that nobody waits
NoIdlePermit == s.val > 0 => \A t \in T : s.ph[t] # "wait"
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ \A o \in Ops : ~Can(s, o)) => PrintT(ToJson(h))
============================================================================
