---------------------------- MODULE GuardModel ----------------------------
(* semaphore_wrapper of semaphore.pyx (async with self: return await fn())  *)
(* over one Semaphore per group, each group on its own event loop.          *)
EXTENDS GuardMon, TLC, Json
CONSTANTS NCalls, Limits, Groups, MaxLen, MinEmit, W, ReleaseOnError
VARIABLES s, h
vars == <<s, h>>
C == 1..NCalls
Kinds == {"ret", "exc"}
Fresh(n) == [ph |-> [c \in C |-> "new"], kind |-> [c \in C |-> "ret"], g |-> [c \in C |-> 1], must |-> {},
             val |-> [g \in Groups |-> n], ws |-> [g \in Groups |-> <<>>], rq |-> [g \in Groups |-> <<>>],
             mon |-> Init0([lim |-> n]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Ph(a, c, p) == [a EXCEPT !.ph[c] = p]
Rdy(a, c) == [a EXCEPT !.rq[a.g[c]] = Append(@, c)]
Dummy(a) == a.mon.lim = -1
Locked(a, g) == ~Dummy(a) /\ (a.val[g] = 0 \/ \E c \in Range(a.ws[g]) : a.ph[c] # "cwait")
WakeNext(a, g) ==
  LET p == SelectSeq(a.ws[g], LAMBDA c : a.ph[c] = "wait")
  IN IF p = <<>> THEN a ELSE Rdy(Ph([a EXCEPT !.val[g] = @ - 1], Head(p), "woken"), Head(p))
Release(a, g) == IF Dummy(a) THEN a ELSE WakeNext([a EXCEPT !.val[g] = @ + 1], g)
Want(c, k) == IF k = "ret" THEN ToString(c) ELSE "exc"
Enter(a, c) == Ph(Emit(a, [op |-> "enter", c |-> c]), c, "run")
Out(a, c, r) == Ph(Emit(a, [op |-> "out", c |-> c, r |-> r]), c, "done")
Body(a, c, r) == \* the body ends with outcome r, the permit goes back, the caller gets r
  LET b == Emit(a, [op |-> "exit", c |-> c])
      d == IF ReleaseOnError \/ r # "exc" THEN Release(b, b.g[c]) ELSE b
  IN Out(d, c, r)
Leave(a, c) == [a EXCEPT !.ws[a.g[c]] = Without(@, c)]
RunTask(a0, c) ==
  LET a == [a0 EXCEPT !.must = @ \ {c}]
      x == c \in a0.must
      g == a.g[c]
  IN CASE a.ph[c] = "called" ->
            IF x THEN Out(a, c, "cancelled")
            ELSE IF ~Locked(a, g) THEN Enter([a EXCEPT !.val[g] = @ - 1], c)
            ELSE Ph([a EXCEPT !.ws[g] = Append(@, c)], c, "wait")
       [] a.ph[c] = "woken" ->
            LET b == Leave(a, c)
            IN IF x THEN Out(WakeNext([b EXCEPT !.val[g] = @ + 1], g), c, "cancelled")
               ELSE Enter(IF b.val[g] > 0 THEN WakeNext(b, g) ELSE b, c)
       [] a.ph[c] = "cwait" -> Out(Leave(a, c), c, "cancelled")
       [] a.ph[c] = "fin"   -> Body(a, c, IF x THEN "cancelled" ELSE Want(c, a.kind[c]))
       [] a.ph[c] = "crun"  -> Body(a, c, "cancelled")
       [] OTHER -> a
RECURSIVE Loop(_, _, _)
Loop(a, g, n) == IF n = 0 THEN a ELSE Loop(RunTask([a EXCEPT !.rq[g] = Tail(@)], Head(a.rq[g])), g, n - 1)
Quiet(a, g) == IF a.rq[g] = <<>> THEN Emit(a, [op |-> "quiet", g |-> g]) ELSE a
Do(a, o) ==
  CASE o.op = "call"   ->
         LET b == [a EXCEPT !.kind[o.c] = o.k, !.g[o.c] = o.g]
         IN Rdy(Ph(Emit(b, [op |-> "call", c |-> o.c, g |-> o.g, want |-> Want(o.c, o.k)]), o.c, "called"), o.c)
    [] o.op = "fin"    -> Rdy(Ph(a, o.c, "fin"), o.c)
    [] o.op = "cancel" ->
         LET b == Emit(a, [op |-> "cancel", c |-> o.c])
         IN IF a.ph[o.c] = "wait" THEN Rdy(Ph(b, o.c, "cwait"), o.c)
            ELSE IF a.ph[o.c] = "run" THEN Rdy(Ph(b, o.c, "crun"), o.c)
            ELSE [b EXCEPT !.must = @ \cup {o.c}]
    [] o.op = "tick"   -> Quiet(Loop(a, o.g, Len(a.rq[o.g])), o.g)
Can(a, o) ==
  CASE o.op = "call"   -> a.ph[o.c] = "new" /\ \A u \in 1..(o.c-1) : a.ph[u] # "new"
    [] o.op = "fin"    -> a.ph[o.c] = "run"
    [] o.op = "cancel" -> a.ph[o.c] \in {"called", "wait", "woken", "run", "fin"} /\ o.c \notin a.must
    [] o.op = "tick"   -> a.rq[o.g] # <<>>
Ops == [op : {"call"}, c : C, k : Kinds, g : Groups] \cup [op : {"fin", "cancel"}, c : C] \cup [op : {"tick"}, g : Groups, w : 1..W]
Init == \E n \in Limits : s = Fresh(n) /\ h = <<[lim |-> n, groups |-> Cardinality(Groups)]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
\* at most lim bodies run per group, whatever the monitor says
Bounded == \A g \in Groups : Dummy(s) \/ Cardinality({c \in C : s.g[c] = g /\ s.ph[c] \in {"run", "fin", "crun"}}) <= s.mon.lim
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ \A o \in Ops : ~Can(s, o)) => PrintT(ToJson(h))
============================================================================
