------------------------------ MODULE TaskModel ---------------------------
(* create_task with a set of wrapper tasks that keeps persisted tasks alive *)
(* and is pruned, reporting failures, at every call.                        *)
EXTENDS TaskMon, TLC, Json
CONSTANTS NTasks, Kinds, MaxLen, MinEmit, W, Hold, Prune
VARIABLES s, h
vars == <<s, h>>
T == 1..NTasks
Fresh(c) == [c |-> c, n |-> 0, p |-> {}, ref |-> {}, st |-> [t \in T |-> "none"], out |-> [t \in T |-> ""], res |-> [t \in T |-> ""], must |-> {}, dead |-> {},
             w |-> [t \in T |-> "none"], pset |-> {}, rq |-> <<>>, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Rdy(a, x) == [a EXCEPT !.rq = Append(@, x)]
RECURSIVE PruneAll(_, _)
PruneAll(a, S) == IF S = {} THEN a
                  ELSE LET t == MinOf(S) IN
                       IF a.w[t] \in {"ok", "bad"} THEN
                         LET b == IF Prune THEN [a EXCEPT !.pset = @ \ {t}] ELSE a
                         IN PruneAll(IF a.w[t] = "bad" THEN Emit(b, [op |-> "report", t |-> t]) ELSE b, S \ {t})
                       ELSE PruneAll(a, S \ {t})
Create(a, p) ==
  LET t == a.n + 1
      b == Emit([a EXCEPT !.n = t, !.st[t] = "new", !.ref = @ \cup {t}], [op |-> "create", t |-> t, p |-> p, q |-> FALSE])
      c == Rdy(b, <<"t", t>>)
      d == IF p THEN Rdy([c EXCEPT !.p = @ \cup {t}, !.w[t] = "new", !.pset = IF Hold THEN @ \cup {t} ELSE @], <<"w", t>>) ELSE c
  IN PruneAll(d, d.pset)
Finish(a, t, o) ==
  LET b == Emit(Emit([a EXCEPT !.st[t] = "done", !.out[t] = o], [op |-> "end", t |-> t, o |-> o, f |-> o = "exc"]), [op |-> "done", t |-> t, o |-> o])
  IN IF b.w[t] = "wait" THEN Rdy([b EXCEPT !.w[t] = "wake"], <<"w", t>>) ELSE b
StepT(a, t) ==
  IF t \in a.dead \/ a.st[t] = "done" THEN a
  ELSE IF a.st[t] = "new" THEN
    IF t \in a.must THEN LET b == Emit([a EXCEPT !.st[t] = "done", !.out[t] = "cancelled"], [op |-> "done", t |-> t, o |-> "cancelled"])
                         IN IF b.w[t] = "wait" THEN Rdy([b EXCEPT !.w[t] = "wake"], <<"w", t>>) ELSE b
    ELSE LET b == Emit(a, [op |-> "run", t |-> t]) IN IF b.res[t] # "" THEN Finish(b, t, b.res[t]) ELSE [b EXCEPT !.st[t] = "wait"]
  ELSE Finish(a, t, IF t \in a.must THEN "cancelled" ELSE a.res[t])
StepW(a, t) ==
  IF a.st[t] = "done" THEN [a EXCEPT !.w[t] = IF a.out[t] = "exc" THEN "bad" ELSE "ok"]
  ELSE IF a.w[t] = "new" THEN [a EXCEPT !.w[t] = "wait"] ELSE a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE LET it == Head(a.rq)
                                       b == [a EXCEPT !.rq = Tail(@)]
                                   IN Loop(IF it[1] = "t" THEN StepT(b, it[2]) ELSE StepW(b, it[2]), n - 1)
RECURSIVE Settle(_)
Settle(a) == IF a.rq = <<>> THEN a ELSE Settle(Loop(a, Len(a.rq)))
Wake(a, t) == IF a.st[t] = "wait" THEN Rdy([a EXCEPT !.st[t] = "wake"], <<"t", t>>) ELSE a
Queued(a, t) == \E i \in DOMAIN a.rq : a.rq[i][2] = t
RECURSIVE Gc(_, _)
Gc(a, t) == IF t > a.n THEN a
            ELSE LET b == IF t \in a.dead \/ t \in a.ref THEN a
                          ELSE IF a.st[t] \in {"done"} THEN IF t \in a.pset THEN Emit(a, [op |-> "kept", t |-> t]) ELSE [a EXCEPT !.dead = @ \cup {t}]
                          ELSE IF ~Queued(a, t) /\ t \notin a.pset THEN Emit([a EXCEPT !.dead = @ \cup {t}], [op |-> "lost", t |-> t]) ELSE a
                 IN Gc(b, t + 1)
RECURSIVE CancelAll(_, _)
Cancel1(a, t) == IF a.st[t] \in {"none", "done"} \/ t \in a.dead THEN a ELSE Wake([a EXCEPT !.must = @ \cup {t}], t)
CancelAll(a, t) == IF t > a.n THEN a ELSE CancelAll(Cancel1(a, t), t + 1)
Do(a, o) ==
  CASE o.op = "create" -> Create(a, o.p)
    [] o.op = "comp" -> Wake([a EXCEPT !.res[o.t] = o.o], o.t)
    [] o.op = "drop" -> Emit([a EXCEPT !.ref = @ \ {o.t}], [op |-> "drop", t |-> o.t])
    [] o.op = "cancel" -> Cancel1(Emit(a, [op |-> "cancel", t |-> o.t]), o.t)
    [] o.op = "cancelall" -> CancelAll(Emit(a, [op |-> "cancelall"]), 1)
    [] o.op = "gc" -> Gc(a, 1)
    [] o.op = "tick" -> Loop(a, Len(a.rq))
    [] o.op = "settle" -> Emit(Settle(a), [op |-> "quiet"])
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "create" -> a.n < NTasks
    [] o.op = "comp" -> o.t <= a.n /\ a.st[o.t] \in {"new", "wait"} /\ a.res[o.t] = "" /\ o.t \notin a.dead /\ o.t \notin a.must
    [] o.op = "drop" -> o.t \in a.ref
    [] o.op = "cancel" -> o.t \in a.ref /\ a.st[o.t] # "done" /\ o.t \notin a.must
    [] o.op = "cancelall" -> a.n > 0 /\ a.must = {}
    [] o.op = "gc" -> a.ref # 1..a.n
    [] o.op = "tick" -> a.rq # <<>>
    [] o.op = "settle" -> a.n > 0
    [] OTHER -> FALSE
Ops == [op : {"create"}, p : BOOLEAN, k : Kinds] \cup [op : {"comp"}, t : T, o : {"ret", "exc"}] \cup [op : {"drop", "cancel"}, t : T] \cup [op : {"cancelall", "gc", "tick", "settle"}, w : 1..W]
Init == s = Fresh([a |-> 1]) /\ h = <<[a |-> 1]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
