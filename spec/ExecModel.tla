------------------------------ MODULE ExecModel ---------------------------
(* A thread pool that prunes idle threads, as the code accounts for them:   *)
(* a semaphore counts the idle threads nobody has claimed yet; a submission *)
(* claims one, or starts a thread, or (at the limit) waits in the backlog.  *)
(* "expire": a waiting thread's time is over, "go": it learns about it.     *)
EXTENDS ExecMon, TLC, Json
CONSTANTS Ns, Kinds, MaxK, MaxLen, MinEmit, W, Debt, Claim
VARIABLES s, h
vars == <<s, h>>
Fresh(c) == [c |-> c, k |-> 0, q |-> <<>>, idle |-> 0, debt |-> 0, nth |-> 0, id |-> 0, wq |-> <<>>, limbo |-> <<>>, on |-> Empty, cut |-> {}, done |-> {}, down |-> FALSE, downd |-> FALSE,
             mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Arg(k) == "a" \o ToString(k)
\* a worker is done with an item
Back(a) == IF a.debt > 0 /\ Debt THEN [a EXCEPT !.debt = @ - 1] ELSE [a EXCEPT !.idle = @ + 1]
RECURSIVE Deliver(_)
Deliver(a) ==
  IF a.q = <<>> \/ a.wq = <<>> THEN a
  ELSE LET k == Head(a.q)
           t == Head(a.wq)
           b == [a EXCEPT !.q = Tail(@), !.wq = Tail(@)]
       IN IF k \in a.cut THEN Deliver(Back([b EXCEPT !.wq = Append(@, t)]))
          ELSE Deliver(Emit([b EXCEPT !.on = Put(@, k, t)], [op |-> "start", k |-> k, a |-> Arg(k), caller |-> FALSE]))
Submit(a, k) ==
  LET b == [a EXCEPT !.q = Append(@, k)] IN
  IF a.idle > 0 THEN [b EXCEPT !.idle = @ - 1]
  ELSE IF a.nth < a.c.n THEN [b EXCEPT !.nth = @ + 1, !.id = @ + 1, !.wq = Append(@, a.id + 1)]
  ELSE [b EXCEPT !.debt = @ + 1]
Calm(a) == IF a.limbo # <<>> THEN a
           ELSE LET b == IF a.down /\ ~a.downd /\ a.q = <<>> /\ DOMAIN a.on = {} THEN Emit([a EXCEPT !.downd = TRUE], [op |-> "downd", o |-> "=None"]) ELSE a
                IN Emit(b, [op |-> "quiet", w |-> a.nth])
Res(a, k, o) == [Emit(a, [op |-> "res", k |-> k, o |-> o]) EXCEPT !.done = @ \cup {k}]
Inline(a, k, o) ==
  LET v == o \o ToString(k) IN
  Res(Emit(Emit(Emit(a, [op |-> "start", k |-> k, a |-> Arg(k), caller |-> TRUE]), [op |-> "end", k |-> k, o |-> v]), [op |-> "subd", k |-> k]), k, v)
Finish(a, k, o) ==
  LET t == a.on[k]
      v == o \o ToString(k)
      b == Emit([a EXCEPT !.on = Del(@, k)], [op |-> "end", k |-> k, o |-> v])
      d == IF k \in a.cut THEN b ELSE Res(b, k, v)
  IN Deliver([Back(d) EXCEPT !.wq = Append(@, t)])
Prune(a, t) ==
  LET b == [a EXCEPT !.limbo = Without(@, t)] IN
  IF a.nth > 1 /\ ~a.down /\ (a.idle > 0 \/ ~Claim) THEN [b EXCEPT !.nth = @ - 1, !.idle = IF Claim THEN @ - 1 ELSE @] ELSE Deliver([b EXCEPT !.wq = Append(@, t)])
Nth(q, w) == IF w = 1 THEN q[1] ELSE q[Len(q)]
Pending(a) == {k \in 1..a.k : k \notin a.done}
Do(a, o) ==
  CASE o.op = "sub" ->
         LET k == a.k + 1
             b == Emit([a EXCEPT !.k = k], [op |-> "sub", k |-> k, a |-> Arg(k)])
         IN Calm(IF a.c.n = 0 THEN Inline(b, k, o.o) ELSE IF a.down THEN Res(b, k, "!E:RuntimeError") ELSE Deliver(Submit(b, k)))
    [] o.op = "end" -> Calm(Finish(a, IF o.w = 1 THEN MinOf(DOMAIN a.on) ELSE MaxOf(DOMAIN a.on), o.o))
    [] o.op = "cancel" -> LET k == IF o.w = 1 THEN MinOf(Pending(a)) ELSE MaxOf(Pending(a)) IN Calm(Res([Emit(a, [op |-> "cancel", k |-> k]) EXCEPT !.cut = @ \cup {k}], k, "!cancelled"))
    [] o.op = "expire" -> LET t == Nth(a.wq, o.w) IN [a EXCEPT !.wq = Without(@, t), !.limbo = Append(@, t)]
    [] o.op = "go" -> Calm(Prune(a, Nth(a.limbo, o.w)))
    [] o.op = "down" -> Calm([Emit(a, [op |-> "down"]) EXCEPT !.down = TRUE])
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "sub" -> a.k < MaxK /\ (a.c.n = 0 \/ o.o = "=")
    [] o.op = "end" -> DOMAIN a.on # {} /\ (o.w = 1 \/ Cardinality(DOMAIN a.on) > 1)
    [] o.op = "cancel" -> Pending(a) # {} /\ (o.w = 1 \/ Cardinality(Pending(a)) > 1)
    [] o.op = "expire" -> a.c.kind = "prune" /\ ~a.down /\ a.wq # <<>> /\ (o.w = 1 \/ Len(a.wq) > 1)
    [] o.op = "go" -> a.limbo # <<>> /\ (o.w = 1 \/ Len(a.limbo) > 1)
    [] o.op = "down" -> a.c.n > 0 /\ ~a.down /\ Len(h) > 3
    [] OTHER -> FALSE
Ops == [op : {"sub"}, o : {"=", "!"}] \cup [op : {"end"}, w : 1..2, o : {"=", "!"}] \cup [op : {"cancel"}, w : 1..2] \cup [op : {"expire", "go"}, w : 1..2] \cup [op : {"down"}, w : {1}]
Cfgs == [n : Ns, kind : Kinds]
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
\* every submission is accounted for: the idle threads nobody claimed, and the backlog
Accounts == s.c.n > 0 /\ Debt => s.idle = s.nth - Cardinality({k \in 1..s.k : k \in Range(s.q) \/ k \in DOMAIN s.on}) + s.debt
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
