------------------------------ MODULE GathModel ---------------------------
(* gather / as_completed: every awaitable runs in its own task; completions *)
(* are notified through the loop into a done queue that the consumer reads; *)
(* a timer ends the wait.                                                   *)
EXTENDS GathMon, TLC, Json
CONSTANTS MaxN, OpKinds, Items, Tmos, MaxLen, MinEmit, W, Fifo, KeepDone, Dts
VARIABLES s, h
vars == <<s, h>>
I == 1..MaxN
Fresh(c) == [c |-> c, pre |-> {}, gate |-> [i \in I |-> ""], new |-> {}, began |-> FALSE, t |-> 0, rq |-> <<>>, dq |-> <<>>, timed |-> FALSE, credit |-> 0, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Gath(a) == a.c.kind \in {"gather", "gmap"}
Ended(a, i) == i \in DOMAIN a.mon.out
Comp(a, i) == LET f == a.gate[i] = "exc"
                  b == Emit(a, [op |-> "comp", i |-> i, o |-> IF f THEN "E" ELSE ToString(i % 2), f |-> f, x |-> a.c.excl /\ i = 1 /\ ~f])
              IN [b EXCEPT !.rq = Append(@, <<"done", i>>)]
Start(a, i) == LET b == Emit([a EXCEPT !.new = @ \ {i}], [op |-> "start", i |-> i]) IN IF b.gate[i] # "" THEN Comp(b, i) ELSE b
ResSeq(a) == LET done == SelectSeq(a.dq, LAMBDA i : i \notin a.mon.excl) IN IF ~Fifo THEN [j \in 1..Len(done) |-> a.mon.out[done[j]]] ELSE [j \in 1..Len(Keep(a.mon)) |-> a.mon.out[Keep(a.mon)[j]]]
Push(q, i) == IF Fifo THEN Append(q, i) ELSE <<i>> \o q
RECURSIVE Consume(_)
Consume(a) ==
  IF ~a.began \/ a.mon.over THEN a
  ELSE IF Gath(a) THEN
    LET bad == SelectSeq(a.dq, LAMBDA i : i \in a.mon.fail)
    IN IF bad # <<>> /\ ~a.c.rex THEN Emit(a, [op |-> "raise", o |-> a.mon.out[bad[1]]])
       ELSE IF Len(a.dq) = a.c.n THEN Emit(a, IF a.c.kind = "gather" THEN [op |-> "res", q |-> ResSeq(a)] ELSE [op |-> "resm", ks |-> Keep(a.mon), vs |-> ResSeq(a)])
       ELSE a
  ELSE IF ~a.mon.want THEN IF a.credit > 0 THEN Consume(Emit([a EXCEPT !.credit = @ - 1], [op |-> "want"])) ELSE a
  ELSE IF a.mon.pos = a.c.n THEN Emit(a, [op |-> "endit"])
  ELSE IF a.dq # <<>> THEN
    LET i == Head(a.dq)
        b == [a EXCEPT !.dq = Tail(@)]
    IN Consume(IF i \in a.mon.fail /\ ~a.c.rex THEN Emit(b, [op |-> "fail", o |-> a.mon.out[i]]) ELSE Emit(b, [op |-> "item", k |-> i, o |-> a.mon.out[i]]))
  ELSE IF a.timed THEN Consume(Emit(a, [op |-> "tmo"]))
  ELSE a
Run1(a, x) == IF x[1] = "start" THEN IF a.gate[x[2]] = "" /\ x[2] \notin a.new THEN a ELSE Start(a, x[2])
              ELSE IF x[1] = "comp" THEN Comp(a, x[2])
              ELSE IF a.timed THEN a ELSE Consume([a EXCEPT !.dq = Push(@, x[2])])
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(Run1([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
RECURSIVE Settle(_)
Settle(a) == IF a.rq = <<>> THEN a ELSE Settle(Loop(a, Len(a.rq)))
Expire(a, t) == IF a.c.tmo > 0 /\ a.began /\ ~a.timed /\ ~a.mon.over /\ t >= a.mon.dl /\ Len(a.mon.ord) < a.c.n
                THEN [Emit(a, [op |-> "adv", t |-> t]) EXCEPT !.timed = TRUE, !.dq = IF KeepDone THEN @ ELSE <<>>]
                ELSE Emit(a, [op |-> "adv", t |-> t])
Do(a, o) ==
  CASE o.op = "begin" -> LET b == Emit([a EXCEPT !.began = TRUE, !.new = 1..a.c.n], [op |-> "begin", t |-> a.t])
                         IN [b EXCEPT !.rq = [i \in 1..a.c.n |-> <<"start", i>>]]
    [] o.op = "comp" -> LET b == [a EXCEPT !.gate[o.i] = o.o] IN IF a.began /\ o.i \notin a.new THEN [b EXCEPT !.rq = Append(@, <<"comp", o.i>>)] ELSE b
    [] o.op = "tick" -> Loop(a, Len(a.rq))
    [] o.op = "settle" -> Emit(Settle(a), [op |-> "quiet"])
    [] o.op = "pull" -> Consume([a EXCEPT !.credit = @ + 1])
    [] o.op = "adv" -> LET b == Settle(a) IN Emit(Settle(Consume(Expire([b EXCEPT !.t = @ + o.d], b.t + o.d))), [op |-> "quiet"])
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "begin" -> ~a.began
    [] o.op = "comp" -> o.i <= a.c.n /\ a.gate[o.i] = ""
    [] o.op = "tick" -> a.rq # <<>>
    [] o.op = "settle" -> a.rq # <<>>
    [] o.op = "pull" -> a.began /\ ~Gath(a) /\ ~a.mon.over /\ a.credit < 2 /\ a.mon.pos + a.credit <= a.c.n
    [] o.op = "adv" -> a.c.tmo > 0 /\ a.began /\ ~a.timed /\ a.t < a.c.tmo + 4
    [] OTHER -> FALSE
Ops == {[op |-> "begin"]} \cup [op : {"comp"}, i : I, o : {"ret", "exc"}] \cup [op : {"tick", "settle", "pull"}, w : 1..W] \cup [op : {"adv"}, d : Dts]
Cfgs == {[kind |-> k, n |-> n, rex |-> r, aiter |-> ai, tmo |-> t, strict |-> st, excl |-> x, items |-> it] :
         k \in OpKinds, n \in 1..MaxN, r \in BOOLEAN, ai \in BOOLEAN, t \in Tmos, st \in {TRUE}, x \in BOOLEAN, it \in Items}
Legal(c) == (c.kind \in {"gather", "gmap"} => c.tmo = 0 /\ c.aiter) /\ (c.kind \in {"ac", "acmap"} => ~c.excl)
Init == \E c \in Cfgs : Legal(c) /\ s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
