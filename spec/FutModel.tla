------------------------------- MODULE FutModel ---------------------------
(* SmartFuture / SmartTask / shield on the asyncio callback machinery:      *)
(* done callbacks, task wake-ups, cancellation passed to the awaited future.*)
EXTENDS FutMon, TLC, Json
CONSTANTS NNodes, Kinds, MaxLen, MinEmit, W, Filter, Isolate
VARIABLES s, h
vars == <<s, h>>
N == 1..NNodes
Fresh == [kind |-> [x \in N |-> "none"], tgt |-> [x \in N |-> 0], st |-> [x \in N |-> "none"], out |-> [x \in N |-> ""], must |-> {},
          cbs |-> [x \in N |-> <<>>], wt |-> [x \in N |-> {}], rq |-> <<>>, next |-> 1, mon |-> Init0([a |-> 1]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Rdy(a, x) == [a EXCEPT !.rq = Append(@, x)]
IsTask(a, x) == a.kind[x] \in {"task", "plain"}
Done(a, x) == a.st[x] = "done"
RECURSIVE Sched(_, _, _)
Sched(a, x, q) == IF q = <<>> THEN a
                  ELSE LET w == Head(q)
                           b == IF IsTask(a, w) THEN Rdy([a EXCEPT !.st[w] = "wake"], <<"step", w>>) ELSE Rdy(a, <<"inner", w>>)
                       IN Sched(b, x, Tail(q))
Fin(a, x, o) == LET b == Sched([a EXCEPT !.st[x] = "done", !.out[x] = o, !.cbs[x] = <<>>], x, a.cbs[x])
                IN IF a.kind[x] = "shield" THEN Rdy(b, <<"outer", x>>) ELSE b
RECURSIVE Cancel(_, _)
Cancel(a, x) == CASE Done(a, x) -> a
                  [] ~IsTask(a, x) -> LET b == Fin(a, x, "cancelled") IN IF a.kind[x] = "shield" /\ ~Isolate THEN Cancel(b, a.tgt[x]) ELSE b
                  [] a.st[x] = "wait" -> Cancel(a, a.tgt[x])
                  [] OTHER -> [a EXCEPT !.must = @ \cup {x}]
Step(a0, x) ==
  LET a == [a0 EXCEPT !.must = @ \ {x}]
      t == a.tgt[x]
  IN IF x \in a0.must THEN Fin([a EXCEPT !.wt[t] = @ \ {x}], x, "cancelled")
     ELSE IF a.st[x] = "new" THEN
            LET b == Emit(a, [op |-> "aw", x |-> x])
            IN IF Done(b, t) THEN Fin(b, x, b.out[t])
               ELSE [b EXCEPT !.st[x] = "wait", !.cbs[t] = Append(@, x), !.wt[t] = @ \cup {x}]
     ELSE Fin([a EXCEPT !.wt[t] = @ \ {x}], x, a.out[t])
RunTask(a, it) ==
  CASE it[1] = "step" -> IF Done(a, it[2]) THEN a ELSE Step(a, it[2])
    [] it[1] = "inner" -> IF Done(a, it[2]) THEN a ELSE Fin(a, it[2], a.out[a.tgt[it[2]]])
    [] it[1] = "outer" -> LET t == a.tgt[it[2]] IN [a EXCEPT !.cbs[t] = Without(@, it[2]), !.wt[t] = @ \ {it[2]}]
    [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(RunTask([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
RECURSIVE Num(_, _), NumSum(_, _)
NumSum(a, S) == IF S = {} THEN 0 ELSE LET w == CHOOSE y \in S : TRUE IN (IF a.kind[w] = "plain" THEN 1 ELSE Max2(1, Num(a, w))) + NumSum(a, S \ {w})
Num(a, x) == IF Done(a, x) THEN 0 ELSE NumSum(a, IF Filter THEN {w \in a.wt[x] : ~Done(a, w)} ELSE a.wt[x])
RECURSIVE SeeDone(_, _), SeeCnt(_, _)
SeeDone(a, x) == IF x >= a.next THEN a
                 ELSE SeeDone(IF Done(a, x) /\ x \notin DOMAIN a.mon.out THEN Emit(a, [op |-> "done", x |-> x, o |-> a.out[x]]) ELSE a, x + 1)
SeeCnt(a, x) == IF x >= a.next THEN a
                ELSE SeeCnt(IF a.kind[x] \in {"fut", "task", "shield"} THEN Emit(a, [op |-> "count", x |-> x, n |-> Num(a, x)]) ELSE a, x + 1)
Obs(a) == LET b == SeeCnt(SeeDone(a, 1), 1) IN IF b.rq = <<>> THEN Emit(b, [op |-> "quiet"]) ELSE b
Make(a, k, t) ==
  LET x == a.next
      b == Emit([a EXCEPT !.next = @ + 1, !.kind[x] = k, !.tgt[x] = t], [op |-> "mk", x |-> x, kind |-> k, tgt |-> t])
  IN CASE k \in {"task", "plain"} -> Rdy([b EXCEPT !.st[x] = "new"], <<"step", x>>)
       [] k = "shield" -> [b EXCEPT !.st[x] = "pend", !.cbs[t] = Append(@, x), !.wt[t] = @ \cup {x}]
       [] OTHER -> [b EXCEPT !.st[x] = "pend"]
Do(a, o) ==
  CASE o.op = "mk" -> Obs(Make(a, o.k, o.t))
    [] o.op = "comp" -> Obs(Fin(Emit(a, [op |-> "comp", x |-> o.x, o |-> o.o]), o.x, o.o))
    [] o.op = "cancel" -> Obs(Cancel(Emit(a, [op |-> "cancel", x |-> o.x]), o.x))
    [] o.op = "tick" -> Obs(Loop(a, Len(a.rq)))
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "mk" -> a.next <= NNodes /\ (IF o.k \in {"fut", "pfut"} THEN o.t = 0 ELSE o.t \in 1..(a.next - 1) /\ (o.k = "shield" => ~Done(a, o.t)))
    [] o.op = "comp" -> a.kind[o.x] \in {"fut", "pfut"} /\ ~Done(a, o.x)
    [] o.op = "cancel" -> a.st[o.x] # "none" /\ ~Done(a, o.x)
    [] o.op = "tick" -> a.rq # <<>>
    [] OTHER -> FALSE
Ops == [op : {"mk"}, k : Kinds, t : 0..(NNodes - 1)] \cup [op : {"comp"}, x : N, o : {"r", "exc"}] \cup [op : {"cancel"}, x : N] \cup [op : {"tick"}, w : 1..W]
Init == s = Fresh /\ h = <<[a |-> 1]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
