------------------------------ MODULE IterModel ---------------------------
(* Producers (one task per source) put items on a queue; the merging task   *)
(* ends when all of them did and adds a final marker; the consumer takes    *)
(* everything there is and yields it item by item.                          *)
EXTENDS IterMon, TLC, Json
CONSTANTS MaxSrc, MaxItems, IKinds, Joins, Queues, MaxLen, MinEmit, W, Fails, KeepTail, Serial
VARIABLES s, h
vars == <<s, h>>
S == 1..MaxSrc
Mark == 0
Fresh(c) == [c |-> c, n |-> [i \in S |-> 0], began |-> FALSE, q |-> <<>>, loc |-> <<>>, unf |-> 0, tdone |-> FALSE, err |-> "", pend |-> FALSE, credit |-> 0, taken |-> 0,
             mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Errs(a) == a.mon.errs
\* the merging task: all sources ended
Merge(a) == IF ~a.began \/ ~All(a.mon) \/ a.pend \/ a.tdone THEN a
            ELSE IF Errs(a) # {} THEN [a EXCEPT !.tdone = TRUE, !.err = CHOOSE o \in Errs(a) : TRUE, !.pend = TRUE, !.q = Append(@, Mark)]
            ELSE [a EXCEPT !.pend = TRUE, !.q = Append(@, Mark), !.unf = @ + 1]
Fin(a) == IF a.c.kind = "exh" /\ a.pend /\ ~a.mon.over
          THEN IF a.err # "" THEN Emit(a, [op |-> "raise", o |-> a.err])
               ELSE IF a.c.join /\ a.unf > 0 THEN a ELSE Emit(a, [op |-> "fin"])
          ELSE a
RECURSIVE Consume(_)
Consume(a) ==
  IF a.c.kind # "yield" \/ ~a.began \/ a.mon.over \/ a.mon.stopped THEN a
  ELSE IF ~a.mon.want THEN IF a.credit > 0 THEN Consume(Emit([a EXCEPT !.credit = @ - 1], [op |-> "want"])) ELSE a
  ELSE IF a.loc # <<>> THEN
    LET x == Head(a.loc)
        b == [a EXCEPT !.loc = Tail(@), !.unf = @ - 1]
    IN IF x = Mark THEN IF b.err = "" THEN Emit([b EXCEPT !.tdone = TRUE], [op |-> "endit"]) ELSE Emit(b, [op |-> "raise", o |-> b.err])
       ELSE Consume(Emit(b, [op |-> "item", x |-> x]))
  ELSE IF a.tdone /\ (~KeepTail \/ a.q = <<>>) THEN Emit(a, IF a.err = "" THEN [op |-> "endit"] ELSE [op |-> "raise", o |-> a.err])
  ELSE IF a.q # <<>> THEN Consume([a EXCEPT !.loc = a.q, !.q = <<>>])
  ELSE a
Quiet(a) == LET b == Consume(Fin(Merge(a))) IN Emit(b, [op |-> "quiet", drained |-> b.q = <<>> \/ b.q = <<Mark>>])
Do(a, o) ==
  CASE o.op = "begin" -> Quiet(Emit([a EXCEPT !.began = TRUE], [op |-> "begin"]))
    [] o.op = "prod" -> LET x == o.i * 100 + a.n[o.i] + 1
                        IN Quiet(Emit([a EXCEPT !.n[o.i] = @ + 1, !.unf = IF a.c.queue THEN @ + 1 ELSE @, !.q = IF a.c.queue THEN Append(@, x) ELSE @], [op |-> "made", x |-> x]))
    [] o.op = "eos" -> Quiet(Emit(a, [op |-> "eos", i |-> o.i]))
    [] o.op = "sfail" -> Quiet(Emit(a, [op |-> "sfail", i |-> o.i, o |-> "E"]))
    [] o.op = "pull" -> Quiet([a EXCEPT !.credit = @ + 1])
    [] o.op = "stop" -> Emit(a, [op |-> "stop"])
    [] o.op = "out" -> Quiet(IF Head(a.q) = Mark THEN [a EXCEPT !.q = Tail(@), !.taken = @ + 1] ELSE Emit([a EXCEPT !.q = Tail(@), !.taken = @ + 1], [op |-> "out", x |-> Head(a.q)]))
    [] o.op = "task" -> Quiet(Emit([a EXCEPT !.taken = @ - 1, !.unf = @ - 1], [op |-> "task"]))
    [] OTHER -> a
Live(a, i) == i <= a.c.n /\ i \notin a.mon.ended /\ a.began /\ (Serial /\ a.c.n = 1 => TRUE)
Can(a, o) ==
  CASE o.op = "begin" -> ~a.began
    [] o.op = "prod" -> Live(a, o.i) /\ SumSeq(a.n) < MaxItems
    [] o.op = "eos" -> Live(a, o.i)
    [] o.op = "sfail" -> Live(a, o.i) /\ Fails
    [] o.op = "pull" -> a.c.kind = "yield" /\ a.began /\ a.credit < 2 /\ ~a.mon.over /\ ~a.mon.stopped
    [] o.op = "stop" -> a.c.kind = "yield" /\ a.began /\ ~a.mon.over /\ ~a.mon.stopped /\ ~a.mon.want
    [] o.op = "out" -> a.c.kind = "exh" /\ a.c.queue /\ a.q # <<>>
    [] o.op = "task" -> a.c.kind = "exh" /\ a.taken > 0
    [] o.op = "tick" -> a.began
    [] OTHER -> FALSE
Ops == [op : {"prod", "eos", "sfail"}, i : S] \cup [op : {"begin", "pull", "stop", "out", "task", "tick"}, w : 1..W]
Cfgs == {[kind |-> k, n |-> n, join |-> j, queue |-> qu] : k \in IKinds, n \in 1..MaxSrc, j \in Joins, qu \in Queues}
Legal(c) == (c.join => c.queue) /\ (c.kind = "yield" => c.join /\ c.queue)
Init == \E c \in Cfgs : Legal(c) /\ s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
