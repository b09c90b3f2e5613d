------------------------------- MODULE SmartModel -------------------------
(* SmartProcessingQueue: worker tasks, futures shared by key, waiters       *)
(* counted by future, futures that disappear when nobody holds them.        *)
EXTENDS SmartMon, TLC, Json
CONSTANTS NCalls, NKeys, NWs, NTasks, Kinds, MaxLen, MinEmit, W, ByWaiters, Skip
VARIABLES s, h
vars == <<s, h>>
N == 1..NCalls
T == 1..NTasks
MW == MaxOf(NWs)
Fresh(n) == [nw |-> n, wp |-> [w \in 1..MW |-> "none"], cur |-> [w \in 1..MW |-> 0], st |-> [i \in N |-> "none"], key |-> [i \in N |-> 0],
             k |-> [i \in N |-> "hold"], canc |-> {}, held |-> {}, tp |-> [t \in T |-> "none"], tf |-> [t \in T |-> 0], sh |-> {}, fin |-> Empty,
             q |-> <<>>, gs |-> <<>>, rq |-> <<>>, next |-> 1, closed |-> FALSE, mon |-> Init0([nw |-> n]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Rdy(a, x) == [a EXCEPT !.rq = Append(@, x)]
WakeG(a) == IF a.gs = <<>> THEN a
            ELSE LET w == Head(a.gs) IN Rdy([a EXCEPT !.gs = Tail(@), !.wp[w] = "woken"], <<"w", w>>)
Held(a, n) == n \in a.held \/ \E t \in T : a.tf[t] = n /\ a.tp[t] \in {"new", "wait", "can", "wake"}
Dead(a) == {n \in N : a.st[n] = "pend" /\ n \in a.mon.dead}
\* the caller's last reference is gone: nothing else keeps a waiting job's future alive
Bury(a, n) == IF Held(a, n) \/ n = 0 \/ a.st[n] = "none" THEN a
              ELSE LET b == Emit(a, [op |-> "drop", n |-> n])
                   IN IF a.st[n] = "run" THEN b ELSE Emit(b, [op |-> "dead", n |-> n])
NW(a, n) == IF n \in a.canc THEN 0 ELSE Cardinality({t \in T : a.tf[t] = n /\ a.tp[t] \in {"wait", "wake"}})
Best(a) == CHOOSE i \in DOMAIN a.q : \A j \in DOMAIN a.q : IF ~ByWaiters THEN i <= j
             ELSE a.q[i] \in Dead(a) \/ NW(a, a.q[i]) > NW(a, a.q[j]) \/ (NW(a, a.q[i]) = NW(a, a.q[j]) /\ i <= j) \/ FALSE
BestI(a) == IF \E i \in DOMAIN a.q : a.q[i] \in Dead(a) THEN CHOOSE i \in DOMAIN a.q : a.q[i] \in Dead(a) ELSE Best(a)
Wakes(a, n) == {t \in T : a.tf[t] = n /\ a.tp[t] = "wait"}
RECURSIVE WakeT(_, _)
WakeT(a, S) == IF S = {} THEN a ELSE LET t == MinOf(S) IN WakeT(Rdy([a EXCEPT !.tp[t] = "wake"], <<"t", t>>), S \ {t})
End(a, n, o) == LET b == Emit([a EXCEPT !.st[n] = "done"], [op |-> "end", n |-> n, o |-> o])
                IN IF n \in b.canc THEN b ELSE WakeT(Rdy(b, <<"f", n, o>>), Wakes(b, n))
RECURSIVE RunW(_, _)
RunW(a, w) ==
  IF a.q = <<>> THEN [a EXCEPT !.wp[w] = "wait", !.gs = Append(@, w)]
  ELSE LET i == BestI(a)
           n == a.q[i]
           b == [a EXCEPT !.q = DropAt(@, i)]
       IN IF n \in Dead(a) THEN RunW(b, w)
          ELSE LET c == Emit([b EXCEPT !.st[n] = "run", !.cur[w] = n], [op |-> "start", n |-> n])
               IN IF c.k[n] = "hold" THEN [c EXCEPT !.wp[w] = "run"] ELSE RunW(End(c, n, c.k[n]), w)
AwEnd(a, t, o) == Bury(Emit([a EXCEPT !.tp[t] = "done"], [op |-> "awend", t |-> t, o |-> o]), a.tf[t])
RunT(a, t) ==
  LET n == a.tf[t]
  IN CASE a.tp[t] = "new" -> LET b == Emit(a, [op |-> "aw", t |-> t, n |-> n])
                             IN IF n \in a.canc THEN AwEnd(b, t, "cancelled")
                                ELSE IF a.st[n] = "done" THEN AwEnd(b, t, a.mon.out[n]) ELSE [b EXCEPT !.tp[t] = "wait"]
       [] a.tp[t] = "can" -> AwEnd(a, t, "cancelled")
       [] a.tp[t] = "wake" -> AwEnd(a, t, IF n \in a.canc THEN "cancelled" ELSE a.mon.out[n])
       [] OTHER -> a
RunTask(a, x) ==
  CASE x[1] = "f" -> Emit(a, [op |-> "fut", n |-> x[2], o |-> x[3]])
    [] x[1] = "t" -> RunT(a, x[2])
    [] a.wp[x[2]] \in {"new", "woken"} -> RunW(a, x[2])
    [] a.wp[x[2]] = "run" -> RunW(End(a, a.cur[x[2]], a.fin[a.cur[x[2]]]), x[2])
    [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(RunTask([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
Quiet(a) == IF a.rq = <<>> THEN Emit(a, [op |-> "quiet"]) ELSE a
RECURSIVE Born(_, _)
Born(a, w) == IF w > a.nw THEN a ELSE Born(Rdy([a EXCEPT !.wp[w] = "new"], <<"w", w>>), w + 1)
WorkerOf(a, n) == CHOOSE w \in 1..MW : a.wp[w] = "run" /\ a.cur[w] = n
FCancel(a, n) == LET b == Emit([a EXCEPT !.canc = @ \cup {n}], [op |-> "fcancel", n |-> n])
                 IN WakeT(Rdy(b, <<"f", n, "cancelled">>), Wakes(b, n))
Do(a, o) ==
  CASE o.op = "put" ->
         LET n == a.next
             same == {m \in N : a.key[m] = o.key /\ a.st[m] \in {"pend", "run"} /\ m \notin a.canc /\ m \notin Dead(a)}
             a1 == [a EXCEPT !.next = @ + 1]
         IN IF a.closed THEN Emit(a1, [op |-> "sub", n |-> n, k |-> o.key, r |-> 0, x |-> "RuntimeError"])
            ELSE IF same # {} THEN LET m == MaxOf(same) IN Emit([a1 EXCEPT !.held = @ \cup {m}], [op |-> "sub", n |-> n, k |-> o.key, r |-> m, x |-> ""])
            ELSE LET a2 == IF a1.wp[1] = "none" THEN Born(a1, 1) ELSE a1
                 IN Emit(WakeG([a2 EXCEPT !.q = Append(@, n), !.st[n] = "pend", !.key[n] = o.key, !.k[n] = o.k, !.held = @ \cup {n}]),
                         [op |-> "sub", n |-> n, k |-> o.key, r |-> n, x |-> ""])
    [] o.op = "aw" -> Rdy([a EXCEPT !.tp[o.t] = "new", !.tf[o.t] = o.n, !.sh = IF o.sh THEN @ \cup {o.t} ELSE @], <<"t", o.t>>)
    \* cancelling a task that awaits the future itself cancels the future, a shield prevents that
    [] o.op = "tcancel" -> LET b == Emit(a, [op |-> "tcancel", t |-> o.t])
                           IN IF o.t \in a.sh THEN Rdy([b EXCEPT !.tp[o.t] = "can"], <<"t", o.t>>) ELSE FCancel(b, a.tf[o.t])
    [] o.op = "fcancel" -> FCancel(a, o.n)
    [] o.op = "drop" -> Bury([a EXCEPT !.held = @ \ {o.n}], o.n)
    [] o.op = "fin" -> Rdy([a EXCEPT !.fin = Put(@, o.n, o.k)], <<"w", WorkerOf(a, o.n)>>)
    [] o.op = "close" -> Emit([a EXCEPT !.closed = TRUE], [op |-> "close"])
    [] o.op = "tick" -> Quiet(Loop(a, Len(a.rq)))
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "put" -> a.next <= NCalls
    [] o.op = "aw" -> o.n \in a.held /\ a.tp[o.t] = "none" /\ \A u \in 1..(o.t-1) : a.tp[u] # "none"
    [] o.op = "tcancel" -> a.tp[o.t] = "wait"
    [] o.op = "fcancel" -> o.n \in a.held /\ a.st[o.n] \in {"pend", "run"} /\ o.n \notin a.canc /\ (o.n \notin DOMAIN a.fin)
    [] o.op = "drop" -> o.n \in a.held
    [] o.op = "fin" -> (\E w \in 1..MW : a.wp[w] = "run" /\ a.cur[w] = o.n) /\ o.n \notin DOMAIN a.fin
    [] o.op = "close" -> ~a.closed /\ a.next > 1
    [] o.op = "join" -> a.next > 1
    [] o.op = "tick" -> a.rq # <<>>
    [] OTHER -> FALSE
Ops == [op : {"put"}, key : 1..NKeys, k : Kinds] \cup [op : {"aw"}, t : T, n : N, sh : BOOLEAN] \cup [op : {"tcancel"}, t : T] \cup [op : {"fcancel", "drop"}, n : N]
       \cup [op : {"fin"}, n : N, k : {"ret", "exc"}] \cup {[op |-> "close"], [op |-> "join"]} \cup [op : {"tick"}, w : 1..W]
Init == \E n \in NWs : s = Fresh(n) /\ h = <<[nw |-> n]>>
Next == \E o \in Ops : o.op \notin Skip /\ Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
\* at most one live job per key
OnePerKey == \A m, n \in N : m # n /\ s.st[m] \in {"pend", "run"} /\ s.st[n] \in {"pend", "run"} /\ {m, n} \cap (s.canc \cup Dead(s)) = {} => s.key[m] # s.key[n]
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
