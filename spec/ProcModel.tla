------------------------------ MODULE ProcModel ---------------------------
(* ProcessingQueue / PriorityProcessingQueue: worker tasks over an asyncio  *)
(* queue.  A job either ends at once (k = ret, exc), or runs until the      *)
(* environment finishes it (k = hold).                                      *)
EXTENDS ProcMon, TLC, Json
CONSTANTS NJobs, NWs, Prios, Kinds, MaxLen, MinEmit, W, Survive
VARIABLES s, h
vars == <<s, h>>
J == 1..NJobs
MW == MaxOf(NWs)
Fresh(n) == [nw |-> n, ph |-> [w \in 1..MW |-> "none"], cur |-> [w \in 1..MW |-> 0], k |-> [j \in J |-> "hold"], jp |-> [j \in J |-> 0],
             fin |-> Empty, q |-> {}, gs |-> <<>>, rq |-> <<>>, next |-> 1, closed |-> FALSE, fut |-> [j \in J |-> "none"], nj |-> 0,
             mon |-> Init0([nw |-> n, futs |-> TRUE]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Rdy(a, x) == [a EXCEPT !.rq = Append(@, x)]
WakeG(a) == IF a.gs = <<>> THEN a
            ELSE LET w == Head(a.gs) IN Rdy([a EXCEPT !.gs = Tail(@), !.ph[w] = "woken"], <<"w", w>>)
Best(a) == CHOOSE x \in a.q : \A y \in a.q : a.jp[x] < a.jp[y] \/ (a.jp[x] = a.jp[y] /\ x <= y)
End(a, j, o) == LET b == Emit(a, [op |-> "end", j |-> j, o |-> o])
                IN IF b.fut[j] = "pend" THEN Rdy([b EXCEPT !.fut[j] = o], <<"f", j>>) ELSE b
Broken(a, j, o) == ~Survive /\ a.fut[j] = "cancelled" /\ o = "exc"
RECURSIVE RunW(_, _)
RunW(a, w) ==
  IF a.q = {} THEN [a EXCEPT !.ph[w] = "wait", !.gs = Append(@, w)]
  ELSE LET j == Best(a)
           b == Emit([a EXCEPT !.q = @ \ {j}, !.cur[w] = j], [op |-> "start", j |-> j, a |-> "a"])
       IN IF b.k[j] = "hold" THEN [b EXCEPT !.ph[w] = "run"]
          ELSE LET c == End(b, j, b.k[j]) IN IF Broken(b, j, b.k[j]) THEN [c EXCEPT !.ph[w] = "dead"] ELSE RunW(c, w)
RunTask(a, x) ==
  CASE x[1] = "f" -> Emit(a, [op |-> "fut", j |-> x[2], o |-> a.fut[x[2]]])
    [] a.ph[x[2]] \in {"new", "woken"} -> RunW(a, x[2])
    [] a.ph[x[2]] = "run" ->
         LET j == a.cur[x[2]]
             c == End(a, j, a.fin[j])
         IN IF Broken(a, j, a.fin[j]) THEN [c EXCEPT !.ph[x[2]] = "dead"] ELSE RunW(c, x[2])
    [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(RunTask([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
Quiet(a) == IF a.rq = <<>> THEN Emit(a, [op |-> "quiet"]) ELSE a
RECURSIVE Born(_, _)
Born(a, w) == IF w > a.nw THEN a ELSE Born(Rdy([a EXCEPT !.ph[w] = "new"], <<"w", w>>), w + 1)
Running(a) == {a.cur[w] : w \in {v \in 1..MW : a.ph[v] = "run"}}
WorkerOf(a, j) == CHOOSE w \in 1..MW : a.ph[w] = "run" /\ a.cur[w] = j
Do(a, o) ==
  CASE o.op = "put" ->
         LET j == a.next
             a1 == Emit([a EXCEPT !.next = @ + 1, !.k[j] = o.k, !.jp[j] = o.p], [op |-> "sub", j |-> j, p |-> o.p, a |-> "a"])
         IN IF a.closed THEN Emit(a1, [op |-> "got", j |-> j, r |-> "RuntimeError"])
            ELSE LET a2 == IF a.ph[1] = "none" THEN Born(a1, 1) ELSE a1
                 IN Emit(WakeG([a2 EXCEPT !.q = @ \cup {j}, !.fut[j] = "pend"]), [op |-> "got", j |-> j, r |-> "fut"])
    [] o.op = "fin" -> Rdy([a EXCEPT !.fin = Put(@, o.j, o.k)], <<"w", WorkerOf(a, o.j)>>)
    [] o.op = "fcancel" -> Rdy([Emit(a, [op |-> "fcancel", j |-> o.j]) EXCEPT !.fut[o.j] = "cancelled"], <<"f", o.j>>)
    [] o.op = "close" -> Emit([a EXCEPT !.closed = TRUE], [op |-> "close"])
    [] o.op = "join"  -> [a EXCEPT !.nj = @ + 1]
    [] o.op = "tick"  -> Quiet(Loop(a, Len(a.rq)))
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "put" -> a.next <= NJobs
    [] o.op = "fin" -> o.j \in Running(a) /\ o.j \notin DOMAIN a.fin
    [] o.op = "fcancel" -> a.fut[o.j] = "pend"
    [] o.op = "close" -> ~a.closed /\ a.next > 1
    [] o.op = "join" -> a.nj < 1 /\ a.next > 1
    [] o.op = "tick" -> a.rq # <<>>
    [] OTHER -> FALSE
Ops == [op : {"put"}, k : Kinds, p : Prios] \cup [op : {"fin"}, j : J, k : {"ret", "exc"}] \cup [op : {"fcancel"}, j : J]
       \cup {[op |-> "close"], [op |-> "join"]} \cup [op : {"tick"}, w : 1..W]
Init == \E n \in NWs : s = Fresh(n) /\ h = <<[nw |-> n]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
WorkerBound == Cardinality({w \in 1..MW : s.ph[w] = "run"}) <= s.nw
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
