----------------------------- MODULE MemoModel ----------------------------
(* The memory cache as the code does it: an ordered map from keys to        *)
(* futures; a failed future is dropped when it is met; a timer per entry.   *)
EXTENDS MemoMon, TLC, Json
CONSTANTS Insts, Args, Maxes, Ttls, Defs, Kinds, MaxK, MaxLen, MinEmit, W, MoveToEnd
VARIABLES s, h
vars == <<s, h>>
Fresh(c) == [c |-> c, k |-> 0, n |-> 0, ord |-> <<>>, fut |-> Empty, on |-> Empty, lo |-> Empty, good |-> {}, lk |-> Empty, die |-> Empty, now |-> 0, rq |-> <<>>, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
\* the arguments: 1..3 are equal to each other unless typed, 4 and 5 too, the others only to themselves
KeyOf(a, o) == LET c == IF a.c.kind = "prop" THEN 0 ELSE IF a.c.typed THEN o.a ELSE IF o.a \in 1..3 THEN 1 ELSE IF o.a \in 4..5 THEN 4 ELSE o.a
               IN ToString(o.i) \o "/" \o ToString(c)
ArgOf(a, o) == ToString(o.i) \o "/" \o ToString(IF a.c.kind = "prop" THEN 0 ELSE o.a)
Res(a, k, o) == [Emit(a, [op |-> "res", k |-> k, o |-> o]) EXCEPT !.on = IF k \in DOMAIN @ THEN Del(@, k) ELSE @]
Fill(a, k, key, arg) ==
  LET n == a.n + 1
      q == Append(Without(a.ord, key), key)
      out == a.c.max > 0 /\ Len(q) > a.c.max
      b == [a EXCEPT !.n = n, !.lk = Put(@, n, <<key, arg>>), !.fut = Put(@, key, n), !.ord = q, !.on = Put(@, k, n), !.rq = Append(@, <<"body", n>>)]
  IN IF out THEN [b EXCEPT !.ord = Tail(@), !.fut = Del(@, q[1]), !.die = IF q[1] \in DOMAIN @ THEN Del(@, q[1]) ELSE @] ELSE b
Begin(a, k, key, arg) ==
  LET b == Emit(a, [op |-> "call", k |-> k, key |-> key, args |-> arg]) IN
  IF key \notin DOMAIN a.fut THEN Fill(b, k, key, arg)
  ELSE LET n == a.fut[key]
           u == IF MoveToEnd THEN [b EXCEPT !.ord = Append(Without(@, key), key)] ELSE b
       IN IF n \notin DOMAIN a.lo THEN [u EXCEPT !.on = Put(@, k, n)]
          ELSE IF n \in a.good THEN Res(u, k, a.lo[n])
          ELSE Fill([b EXCEPT !.ord = Without(@, key), !.die = IF key \in DOMAIN @ THEN Del(@, key) ELSE @], k, key, arg)
Finish(a, n, o) ==
  LET key == a.lk[n][1]
      v == o \o ToString(n)
      b == Emit(a, [op |-> "end", n |-> n, o |-> v, good |-> (o = "="), asked |-> TRUE])
      RECURSIVE Wake(_)
      Wake(S) == IF S = {} THEN <<>> ELSE LET k == MinOf(S) IN << <<"wake", k>> >> \o Wake(S \ {k})
  IN [b EXCEPT !.lo = Put(@, n, v), !.good = IF o = "=" THEN @ \cup {n} ELSE @, !.rq = @ \o Wake({k \in DOMAIN a.on : a.on[k] = n}),
               !.die = IF a.c.ttl > 0 /\ key \in DOMAIN a.fut THEN Put(@, key, a.now + a.c.ttl) ELSE @]
Run1(a, x) == CASE x[1] = "start" -> Begin(a, x[2], x[3], x[4])
                [] x[1] = "body" -> Emit(a, [op |-> "body", n |-> x[2], key |-> a.lk[x[2]][1], args |-> a.lk[x[2]][2]])
                [] x[1] = "end" -> Finish(a, x[2], x[3])
                [] x[1] = "wake" -> IF x[2] \in DOMAIN a.on THEN Res(a, x[2], a.lo[a.on[x[2]]]) ELSE a
                [] x[1] = "cut" -> IF x[2] \in DOMAIN a.on THEN Res(a, x[2], "!cancelled") ELSE a
                [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(Run1([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
RECURSIVE Settle(_)
Settle(a) == IF a.rq = <<>> THEN a ELSE Settle(Loop(a, Len(a.rq)))
Expire(a) == LET D == {key \in DOMAIN a.die : a.die[key] <= a.now} IN
             [a EXCEPT !.die = [x \in DOMAIN @ \ D |-> @[x]], !.fut = [x \in DOMAIN @ \ D |-> @[x]], !.ord = SelectSeq(@, LAMBDA x : x \notin D)]
Running(a) == {n \in DOMAIN a.mon.load : ~ \E i \in DOMAIN a.rq : IF a.rq[i][1] = "end" THEN a.rq[i][2] = n ELSE FALSE}
\* with both limits executions end at once (an entry evicted in flight leaves a timer behind)
AtOnce(a) == a.c.ttl > 0 /\ a.c.max > 0
RECURSIVE EndAll(_)
EndAll(a) == LET b == Settle(a) IN IF Running(b) = {} THEN b ELSE EndAll(Finish(b, MinOf(Running(b)), "="))
Do(a, o) ==
  CASE o.op = "call" -> LET b == [a EXCEPT !.k = @ + 1, !.rq = Append(@, <<"start", a.k + 1, KeyOf(a, o), ArgOf(a, o)>>)] IN IF AtOnce(a) THEN EndAll(b) ELSE b
    [] o.op = "cancel" -> LET k == IF o.w = 1 THEN MinOf(DOMAIN a.on) ELSE MaxOf(DOMAIN a.on) IN [Emit(a, [op |-> "cancel", k |-> k]) EXCEPT !.rq = Append(@, <<"cut", k>>)]
    [] o.op = "end" -> [a EXCEPT !.rq = Append(@, <<"end", IF o.w = 1 THEN MinOf(Running(a)) ELSE MaxOf(Running(a)), o.o>>)]
    [] o.op = "scall" -> LET b == Settle(Begin([Settle(a) EXCEPT !.k = @ + 1], a.k + 1, KeyOf(a, o), ArgOf(a, o)))
                         IN IF (a.k + 1) \in DOMAIN b.on THEN Settle(Finish(b, b.on[a.k + 1], o.o)) ELSE b
    [] o.op = "adv" -> LET b == Emit(Settle(a), [op |-> "quiet"]) IN Expire(Emit([b EXCEPT !.now = @ + 6], [op |-> "adv", t |-> 6]))
    [] o.op = "tick" -> Loop(a, Len(a.rq))
    [] o.op = "settle" -> Emit(Settle(a), [op |-> "quiet"])
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "call" -> a.k < MaxK /\ (a.c.kind = "fn" \/ a.c.max > 0 => o.i = 1)
    [] o.op = "cancel" -> DOMAIN a.on # {} /\ (o.w = 1 \/ Cardinality(DOMAIN a.on) > 1)
    [] o.op = "end" -> Running(a) # {} /\ (o.w = 1 \/ Cardinality(Running(a)) > 1) /\ (a.c.max > 0 => o.o = "=")
    [] o.op = "scall" -> a.k < MaxK /\ a.c.ttl = 0 /\ a.c.def = "async" /\ (a.c.kind = "fn" \/ a.c.max > 0 => o.i = 1) /\ Running(a) = {} /\ a.rq = <<>> /\ (a.c.max > 0 => o.o = "=")
    [] o.op = "adv" -> a.c.ttl > 0 /\ a.k > 0
    [] o.op = "tick" -> a.rq # <<>>
    [] o.op = "settle" -> a.rq # <<>>
    [] OTHER -> FALSE
Ops == [op : {"call"}, i : Insts, a : Args] \cup [op : {"scall"}, i : Insts, a : Args, o : {"=", "!"}] \cup [op : {"cancel"}, w : 1..2] \cup [op : {"end"}, w : 1..2, o : {"=", "!"}] \cup
       [op : {"adv", "tick", "settle"}, w : 1..W]
Cfgs == [max : Maxes, ttl : Ttls, typed : BOOLEAN, def : Defs, kind : Kinds]
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
