----------------------------- MODULE EventModel ---------------------------
(* event.pyx: set() resolves the future of every waiter that is not done.   *)
EXTENDS EventMon, TLC, Json
CONSTANTS NTasks, MaxFlips, MaxLen, MinEmit, W, WakeEach
VARIABLES s, h
vars == <<s, h>>
T == 1..NTasks
Fresh == [ph |-> [t \in T |-> "new"], must |-> {}, on |-> FALSE, ws |-> <<>>, rq |-> <<>>, flips |-> 0, mon |-> Init0([x |-> 0]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Ph(a, t, p) == [a EXCEPT !.ph[t] = p]
Rdy(a, t) == [a EXCEPT !.rq = Append(@, t)]
Got(a, t) == Ph(Emit(a, [op |-> "got", t |-> t, r |-> "True"]), t, "done")
End(a, t) == Ph(Emit(a, [op |-> "end", t |-> t, how |-> "cancelled"]), t, "done")
RECURSIVE WakeSeq(_, _)
WakeSeq(a, q) == IF q = <<>> THEN a
                 ELSE IF a.ph[Head(q)] # "wait" THEN IF WakeEach THEN WakeSeq(a, Tail(q)) ELSE a
                 ELSE WakeSeq(Rdy(Ph(a, Head(q), "woken"), Head(q)), Tail(q))
Run(a0, t) ==
  LET a == [a0 EXCEPT !.must = @ \ {t}]
      c == t \in a0.must
      out == [a EXCEPT !.ws = Without(@, t)]
  IN CASE a.ph[t] = "spawned" ->
            IF c THEN Ph(a, t, "done")
            ELSE LET b == Emit(a, [op |-> "start", t |-> t])
                 IN IF b.on THEN Got(b, t) ELSE Ph([b EXCEPT !.ws = Append(@, t)], t, "wait")
       [] a.ph[t] = "woken" -> IF c THEN End(out, t) ELSE Got(out, t)
       [] a.ph[t] = "cwait" -> End(out, t)
       [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(Run([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
Quiet(a) == IF a.rq = <<>> THEN Emit(a, [op |-> "quiet"]) ELSE a
Do(a, o) ==
  CASE o.op = "wait"   -> Rdy(Ph(a, o.t, "spawned"), o.t)
    [] o.op = "set"    -> LET b == Emit([a EXCEPT !.flips = @ + 1], [op |-> "set"])
                          IN IF a.on THEN b ELSE WakeSeq([b EXCEPT !.on = TRUE], a.ws)
    [] o.op = "clear"  -> Emit([a EXCEPT !.on = FALSE, !.flips = @ + 1], [op |-> "clear"])
    [] o.op = "cancel" -> LET b == Emit(a, [op |-> "cancel", t |-> o.t])
                          IN IF a.ph[o.t] = "wait" THEN Rdy(Ph(b, o.t, "cwait"), o.t) ELSE [b EXCEPT !.must = @ \cup {o.t}]
    [] o.op = "tick"   -> Quiet(Loop(a, Len(a.rq)))
Can(a, o) ==
  CASE o.op = "wait"   -> a.ph[o.t] = "new" /\ \A u \in 1..(o.t-1) : a.ph[u] # "new"
    [] o.op \in {"set", "clear"} -> a.flips < MaxFlips
    [] o.op = "cancel" -> a.ph[o.t] \in {"wait", "woken"} /\ o.t \notin a.must
    [] o.op = "tick"   -> a.rq # <<>>
Ops == [op : {"wait", "cancel"}, t : T] \cup {[op |-> "set"], [op |-> "clear"]} \cup [op : {"tick"}, w : 1..W]
Init == s = Fresh /\ h = <<[kind |-> "event"]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
\* the future list holds exactly the tasks that are inside wait()
WaitersListed == Range(s.ws) = {t \in T : s.ph[t] \in {"wait", "woken", "cwait"}}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ \A o \in Ops : ~Can(s, o)) => PrintT(ToJson(h))
============================================================================
