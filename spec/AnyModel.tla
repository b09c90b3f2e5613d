------------------------------ MODULE AnyModel ----------------------------
(* any/all as the code does it: every awaitable becomes a task, completions *)
(* reach a done queue through the loop, the first deciding one cancels all. *)
EXTENDS AnyMon, TLC, Json
CONSTANTS MaxN, Fns, Items, MaxLen, MinEmit, W, Cancels
VARIABLES s, h
vars == <<s, h>>
I == 1..MaxN
Fresh(c) == [c |-> c, gate |-> [i \in I |-> ""], new |-> {}, began |-> FALSE, rq |-> <<>>, dq |-> <<>>, cnt |-> 0, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Ended(a, i) == i \in DOMAIN a.mon.out \cup a.mon.gone
Comp(a, i) == IF Ended(a, i) THEN a ELSE LET b == Emit(a, [op |-> "comp", i |-> i, o |-> a.gate[i]]) IN [b EXCEPT !.rq = Append(@, <<"done", i>>)]
Start(a, i) == IF Ended(a, i) THEN a ELSE LET b == Emit([a EXCEPT !.new = @ \ {i}], [op |-> "start", i |-> i]) IN IF b.gate[i] # "" THEN Comp(b, i) ELSE b
Gone(a, i) == IF Ended(a, i) THEN a ELSE Emit([a EXCEPT !.new = @ \ {i}], [op |-> "gone", i |-> i])
RECURSIVE Consume(_)
Consume(a) ==
  IF ~a.began \/ a.mon.over THEN a
  ELSE IF a.dq = <<>> THEN IF a.cnt = a.c.n THEN Emit(a, [op |-> "res", v |-> (a.c.fn = "all")]) ELSE a
  ELSE LET i == Head(a.dq)
           b == [a EXCEPT !.dq = Tail(@), !.cnt = @ + 1]
           o == a.mon.out[i]
       IN IF o \notin {"t", "f"} THEN Emit(b, [op |-> "raise", o |-> o])
          ELSE IF o = Hit(a.mon) THEN [Emit(b, [op |-> "res", v |-> (a.c.fn = "any")]) EXCEPT !.rq = @ \o (IF Cancels THEN [j \in 1..a.c.n |-> <<"cancel", j>>] ELSE <<>>)]
          ELSE Consume(b)
Run1(a, x) == CASE x[1] = "start" -> IF x[2] \in a.new THEN Start(a, x[2]) ELSE a
                [] x[1] = "comp" -> Comp(a, x[2])
                [] x[1] = "cancel" -> Gone(a, x[2])
                [] x[1] = "go" -> Consume(a)
                [] OTHER -> Consume([a EXCEPT !.dq = Append(@, x[2])])
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(Run1([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
RECURSIVE Settle(_)
Settle(a) == IF a.rq = <<>> THEN a ELSE Settle(Loop(a, Len(a.rq)))
Do(a, o) ==
  CASE o.op = "begin" -> LET b == Emit([a EXCEPT !.began = TRUE, !.new = 1..a.c.n], [op |-> "begin"])
                         IN [b EXCEPT !.rq = [i \in 1..a.c.n |-> <<"start", i>>] \o << <<"go", 0>> >>]
    [] o.op = "comp" -> LET b == [a EXCEPT !.gate[o.i] = o.o] IN IF a.began /\ o.i \notin a.new THEN [b EXCEPT !.rq = Append(@, <<"comp", o.i>>)] ELSE b
    [] o.op = "tick" -> Loop(a, Len(a.rq))
    [] o.op = "settle" -> Emit(Settle(a), [op |-> "quiet"])
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "begin" -> ~a.began
    [] o.op = "comp" -> o.i <= a.c.n /\ a.gate[o.i] = "" /\ ~Ended(a, o.i)
    [] o.op = "tick" -> a.rq # <<>>
    [] o.op = "settle" -> a.rq # <<>>
    [] OTHER -> FALSE
Ops == {[op |-> "begin"]} \cup [op : {"comp"}, i : I, o : {"t", "f", "X"}] \cup [op : {"tick", "settle"}, w : 1..W]
Cfgs == [fn : Fns, n : 0..MaxN, strict : {TRUE}, items : Items, ex : {<<>>}]
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
