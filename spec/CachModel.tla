----------------------------- MODULE CachModel ----------------------------
(* Cached properties as the code does them: one load task per property that *)
(* is stored until its value is (or a value is set), waiters shielded from  *)
(* it; the first waiter to wake up stores the value if the task is still    *)
(* the stored one.                                                          *)
EXTENDS CachMon, TLC, Json
CONSTANTS MaxI, Names, MaxK, MaxSet, MaxLen, MinEmit, W, SetWins
VARIABLES s, h
vars == <<s, h>>
X == (1..MaxI) \X Names
Fresh(c) == [c |-> c, k |-> 0, sets |-> 0, n |-> 0, acc |-> {}, kx |-> Empty, at |-> Empty, on |-> Empty, lock |-> Empty, lx |-> Empty, lo |-> Empty, good |-> {}, val |-> Empty, rq |-> <<>>, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Val(a, x) == GetOr(a.val, x, "")
Res(a, k, o) == [Emit(a, [op |-> "res", k |-> k, o |-> o]) EXCEPT !.on = IF k \in DOMAIN @ THEN Del(@, k) ELSE @]
Oc(o, n) == IF o = "C" THEN "!cancelled" ELSE o \o ToString(n)
Failed(a, n) == n \in DOMAIN a.lo /\ n \notin a.good
Begin(a, k) ==
  LET x == a.kx[k]
      b == Emit(a, [op |-> "await", k |-> k])
  IN IF a.at[k] # "" THEN Res(b, k, a.at[k])
     ELSE IF x \in DOMAIN a.val THEN Res(b, k, a.val[x])
     ELSE IF x \in DOMAIN a.lock /\ ~Failed(a, a.lock[x])
     THEN LET n == a.lock[x] IN [b EXCEPT !.on = Put(@, k, n), !.rq = IF n \in DOMAIN a.lo THEN Append(@, <<"wake", k>>) ELSE @]
     ELSE LET n == a.n + 1 IN [b EXCEPT !.n = n, !.lx = Put(@, n, x), !.lock = Put(@, x, n), !.on = Put(@, k, n), !.rq = Append(@, <<"body", n>>)]
Body(a, n) == Emit(a, [op |-> "body", x |-> a.lx[n], n |-> n])
Finish(a, n, o) ==
  LET b == Emit(a, [op |-> "end", n |-> n, x |-> a.lx[n], o |-> Oc(o, n), good |-> (o = "="), asked |-> TRUE])
      RECURSIVE Wake(_)
      Wake(S) == IF S = {} THEN <<>> ELSE LET k == MinOf(S) IN << <<"wake", k>> >> \o Wake(S \ {k})
  IN [b EXCEPT !.lo = Put(@, n, Oc(o, n)), !.good = IF o = "=" THEN @ \cup {n} ELSE @, !.rq = @ \o Wake({k \in DOMAIN a.on : a.on[k] = n})]
Wakeup(a, k) ==
  IF k \notin DOMAIN a.on THEN a
  ELSE LET n == a.on[k]  x == a.lx[n]
           b == IF n \in a.good /\ x \in DOMAIN a.lock /\ a.lock[x] = n THEN [a EXCEPT !.val = Put(@, x, a.lo[n]), !.lock = Del(@, x)] ELSE a
       IN Res(b, k, a.lo[n])
Run1(a, x) == CASE x[1] = "start" -> Begin(a, x[2])
                [] x[1] = "body" -> Body(a, x[2])
                [] x[1] = "end" -> Finish(a, x[2], x[3])
                [] x[1] = "wake" -> Wakeup(a, x[2])
                [] x[1] = "cut" -> IF x[2] \in DOMAIN a.on THEN Res(a, x[2], "!cancelled") ELSE a
                [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(Run1([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
RECURSIVE Settle(_)
Settle(a) == IF a.rq = <<>> THEN a ELSE Settle(Loop(a, Len(a.rq)))
\* the loads of x that run and were not told to end yet
Running(a, x) == {n \in DOMAIN a.mon.load : a.lx[n] = x /\ ~ \E i \in DOMAIN a.rq : a.rq[i][1] = "end" /\ a.rq[i][2] = n}
Idle(a, x) == (IF x \in DOMAIN a.lock THEN a.lock[x] \in DOMAIN a.lo ELSE TRUE) /\ (~ \E k \in DOMAIN a.on : a.kx[k] = x)
Do(a, o) ==
  CASE o.op = "acc" -> LET k == a.k + 1  x == <<o.i, o.p>>
                       IN Emit([a EXCEPT !.k = k, !.acc = @ \cup {k}, !.kx = Put(@, k, x), !.at = Put(@, k, IF o.path = "direct" THEN Val(a, x) ELSE "")], [op |-> "acc", k |-> k, x |-> x, path |-> o.path])
    [] o.op = "go" -> LET k == IF o.w = 1 THEN MinOf(a.acc) ELSE MaxOf(a.acc) IN [a EXCEPT !.acc = @ \ {k}, !.rq = Append(@, <<"start", k>>)]
    [] o.op = "cancel" -> LET k == IF o.w = 1 THEN MinOf(DOMAIN a.on) ELSE MaxOf(DOMAIN a.on) IN [Emit(a, [op |-> "cancel", k |-> k]) EXCEPT !.rq = Append(@, <<"cut", k>>)]
    [] o.op = "end" -> [a EXCEPT !.rq = Append(@, <<"end", MinOf(Running(a, <<o.i, o.p>>)), o.o>>)]
    [] o.op = "set" -> LET x == <<o.i, o.p>>  good == ~(a.c.setter /\ o.o = "x")
                           v == "=s" \o ToString(a.sets + 1)
                           b == Emit([a EXCEPT !.sets = @ + 1], [op |-> "set", x |-> x, v |-> v, o |-> IF good THEN "ok" ELSE "E", want |-> IF good THEN "ok" ELSE "E", fs |-> 1])
                       IN IF good THEN [b EXCEPT !.val = Put(@, x, v), !.lock = IF SetWins /\ x \in DOMAIN @ THEN Del(@, x) ELSE @] ELSE b
    [] o.op = "del" -> LET x == <<o.i, o.p>>  good == x \in DOMAIN a.val
                           b == Emit(a, [op |-> "del", x |-> x, o |-> IF good THEN "ok" ELSE "E:KeyError", fd |-> 1])
                       IN IF good THEN [b EXCEPT !.val = Del(@, x)] ELSE b
    [] o.op = "sacc" -> LET x == <<o.i, o.p>>
                            b == Emit(a, [op |-> "sacc", x |-> x])
                            n == a.n + 1
                            left == x \in DOMAIN a.lock /\ ~Failed(a, a.lock[x])   \* a load nobody waited for any more
                        IN IF x \in DOMAIN a.val THEN Emit(b, [op |-> "sync", o |-> a.val[x]])
                           ELSE IF left THEN [Emit(b, [op |-> "sync", o |-> a.lo[a.lock[x]]]) EXCEPT !.val = Put(@, x, a.lo[a.lock[x]]), !.lock = Del(@, x)]
                           ELSE LET d == Emit(b, [op |-> "body", x |-> x, n |-> n])
                                    f == Emit(d, [op |-> "end", n |-> n, x |-> x, o |-> Oc(o.o, n), good |-> (o.o = "="), asked |-> TRUE])
                                    g == Emit(f, [op |-> "sync", o |-> Oc(o.o, n)])
                                IN [g EXCEPT !.n = n, !.lx = Put(@, n, x), !.lo = Put(@, n, Oc(o.o, n)), !.good = IF o.o = "=" THEN @ \cup {n} ELSE @, !.val = IF o.o = "=" THEN Put(@, x, Oc(o.o, n)) ELSE @]
    [] o.op = "tick" -> Loop(a, Len(a.rq))
    [] o.op = "settle" -> Emit(Settle(a), [op |-> "quiet"])
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "acc" -> a.k < MaxK /\ (o.p = "b" => o.path = "hidden")
    [] o.op = "go" -> a.acc # {} /\ (o.w = 1 \/ Cardinality(a.acc) > 1)
    [] o.op = "cancel" -> DOMAIN a.on # {} /\ (o.w = 1 \/ Cardinality(DOMAIN a.on) > 1)
    [] o.op = "end" -> Running(a, <<o.i, o.p>>) # {}
    [] o.op = "set" -> a.sets < MaxSet /\ (o.o = "x" => a.c.setter)
    [] o.op = "del" -> TRUE
    [] o.op = "sacc" -> a.n < MaxK /\ a.rq = <<>> /\ Idle(a, <<o.i, o.p>>)
    [] o.op = "tick" -> a.rq # <<>>
    [] o.op = "settle" -> a.rq # <<>>
    [] OTHER -> FALSE
Ops == [op : {"acc"}, i : 1..MaxI, p : Names, path : {"direct", "hidden"}] \cup [op : {"go"}, w : 1..2] \cup [op : {"cancel"}, w : 1..2] \cup
       [op : {"end"}, i : 1..MaxI, p : Names, o : {"=", "!", "C"}] \cup [op : {"set"}, i : 1..MaxI, p : Names, o : {"v", "x"}] \cup
       [op : {"del"}, i : 1..MaxI, p : Names] \cup [op : {"sacc"}, i : 1..MaxI, p : Names, o : {"=", "!"}] \cup [op : {"tick", "settle"}, w : 1..W]
Cfgs == [setter : BOOLEAN, kind : {"async", "sync", "plain"}]
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
