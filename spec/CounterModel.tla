---------------------------- MODULE CounterModel --------------------------
(* counter.pyx: a heap of awaited values, one Event per value, popped while *)
(* the smallest is reached.  NLocks = 2 adds the cluster (gather of both).  *)
EXTENDS CounterMon, TLC, Json
CONSTANTS NTasks, Starts, Vals, NLocks, MaxLen, MinEmit, W, PopAll
VARIABLES s, h
vars == <<s, h>>
T == 1..NTasks
L == 1..NLocks
All == [i \in L |-> i]
Targets == {<<l>> : l \in L} \cup {All}
(* a waiter is a set of pending sub-waits, one per lock; ph[t]: new, spawned, *)
(* wait, done; sub[t]: locks still pending; heap[l]: awaited values; a sub-wait *)
(* released by its event turns into a ready callback                          *)
Fresh(v0) == [ph |-> [t \in T |-> "new"], ls |-> [t \in T |-> <<>>], v |-> [t \in T |-> 0], must |-> {},
              sub |-> [t \in T |-> {}], heap |-> [l \in L |-> {}], val |-> v0, rq |-> <<>>, mon |-> Init0([v0 |-> v0]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Ph(a, t, p) == [a EXCEPT !.ph[t] = p]
Rdy(a, x) == [a EXCEPT !.rq = Append(@, x)]
Got(a, t) == Ph(Emit(a, [op |-> "got", t |-> t, r |-> "True"]), t, "done")
End(a, t) == Ph(Emit(a, [op |-> "end", t |-> t, how |-> "cancelled"]), t, "done")
RECURSIVE WakeAll(_, _, _)
WakeAll(a, l, ts) == IF ts = {} THEN a ELSE LET t == MinOf(ts) IN WakeAll(Rdy(a, <<t, l>>), l, ts \ {t})
Waiters(a, l, v) == {t \in T : a.ph[t] = "wait" /\ a.v[t] = v /\ l \in a.sub[t]}
RECURSIVE Pop(_, _)
Pop(a, l) ==
  IF a.heap[l] = {} THEN a
  ELSE LET k == MinOf(a.heap[l])
       IN IF k > a.val[l] THEN a
          ELSE LET b == WakeAll([a EXCEPT !.heap[l] = @ \ {k}], l, Waiters(a, l, k))
               IN IF PopAll THEN Pop(b, l) ELSE b
Run(a0, x) ==
  LET t == x[1]
      a == [a0 EXCEPT !.must = @ \ {t}]
      c == t \in a0.must
  IN CASE a.ph[t] = "spawned" ->
            IF c THEN Ph(a, t, "done")
            ELSE LET b == Emit(a, [op |-> "start", t |-> t, ls |-> a.ls[t], v |-> a.v[t]])
                     need == {l \in Range(a.ls[t]) : a.val[l] < a.v[t]}
                 IN IF need = {} THEN Got(b, t)
                    ELSE Ph([b EXCEPT !.sub[t] = need, !.heap = [l \in L |-> IF l \in need THEN @[l] \cup {a.v[t]} ELSE @[l]]], t, "wait")
       [] a.ph[t] = "wait" ->
            IF c THEN End(a, t)
            ELSE LET b == [a EXCEPT !.sub[t] = @ \ {x[2]}]
                 IN IF b.sub[t] = {} THEN Got(b, t) ELSE b
       [] a.ph[t] = "cwait" -> End(a, t)
       [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(Run([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
Quiet(a) == IF a.rq = <<>> THEN Emit(a, [op |-> "quiet"]) ELSE a
Do(a, o) ==
  CASE o.op = "wait"   -> Rdy(Ph([a EXCEPT !.ls[o.t] = o.ls, !.v[o.t] = o.v], o.t, "spawned"), <<o.t, 0>>)
    [] o.op = "set"    ->
         LET r == IF o.v < a.val[o.l] THEN "ValueError" ELSE "ok"
             b == Pop([a EXCEPT !.val[o.l] = Max2(@, o.v)], o.l)
         IN Emit(b, [op |-> "set", l |-> o.l, v |-> o.v, r |-> r, val |-> b.val[o.l]])
    [] o.op = "cancel" ->
         LET b == Emit(a, [op |-> "cancel", t |-> o.t])
         IN IF \E i \in DOMAIN a.rq : a.rq[i][1] = o.t THEN [b EXCEPT !.must = @ \cup {o.t}]
            ELSE Rdy(Ph(b, o.t, "cwait"), <<o.t, 0>>)
    [] o.op = "tick"   -> Quiet(Loop(a, Len(a.rq)))
Can(a, o) ==
  CASE o.op = "wait"   -> a.ph[o.t] = "new" /\ \A u \in 1..(o.t-1) : a.ph[u] # "new"
    [] o.op = "set"    -> TRUE
    [] o.op = "cancel" -> a.ph[o.t] = "wait" /\ o.t \notin a.must
    [] o.op = "tick"   -> a.rq # <<>>
Ops == [op : {"wait"}, t : T, ls : Targets, v : Vals] \cup [op : {"set"}, l : L, v : Vals] \cup [op : {"cancel"}, t : T] \cup [op : {"tick"}, w : 1..W]
Init == \E v \in Starts : LET v0 == [l \in L |-> v] IN s = Fresh(v0) /\ h = <<[v0 |-> v0]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
\* no awaited value at or below the counter stays in the heap
HeapAbove == \A l \in L : \A v \in s.heap[l] : v > s.val[l]
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ \A o \in Ops : ~Can(s, o)) => PrintT(ToJson(h))
============================================================================
