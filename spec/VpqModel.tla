------------------------------- MODULE VpqModel ---------------------------
(* VariablePriorityQueue: a heap that is rebuilt at every get, because the  *)
(* priorities of queued items may have changed.  Getters are numbered.      *)
EXTENDS ProcMon, TLC, Json
CONSTANTS NItems, Prios, NGetters, MaxLen, MinEmit, W, Reheap
VARIABLES s, h
vars == <<s, h>>
Fresh == [q |-> {}, p |-> [x \in 1..NItems |-> 0], kp |-> [x \in 1..NItems |-> 0], next |-> 1, gs |-> 0, rq |-> 0, ng |-> 0,
          mon |-> Init0([nw |-> 1, futs |-> TRUE]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
\* without re-heapifying, the priorities at put time decide
Pr(a, x) == IF Reheap THEN a.p[x] ELSE a.kp[x]
Best(a) == CHOOSE x \in a.q : \A y \in a.q : Pr(a, x) < Pr(a, y) \/ (Pr(a, x) = Pr(a, y) /\ x <= y)
TakeIt(a) == LET x == Best(a) IN Emit([a EXCEPT !.q = @ \ {x}], [op |-> "vget", x |-> x])
RECURSIVE RunG(_, _)
RunG(a, n) == IF n = 0 THEN a ELSE RunG(IF a.q = {} THEN [a EXCEPT !.gs = @ + 1] ELSE TakeIt(a), n - 1)
Do(a, o) ==
  CASE o.op = "vput" -> LET x == a.next
                            b == Emit([a EXCEPT !.next = @ + 1, !.q = @ \cup {x}, !.p[x] = o.p, !.kp[x] = o.p], [op |-> "vput", x |-> x, p |-> o.p])
                        IN IF b.gs > 0 THEN [b EXCEPT !.gs = @ - 1, !.rq = @ + 1] ELSE b
    [] o.op = "vset" -> Emit([a EXCEPT !.p[o.x] = o.p], [op |-> "vset", x |-> o.x, p |-> o.p])
    [] o.op = "vnow" -> IF a.q = {} THEN Emit(a, [op |-> "vempty"]) ELSE TakeIt(a)
    [] o.op = "vget" -> [a EXCEPT !.rq = @ + 1, !.ng = @ + 1]
    [] o.op = "tick" -> RunG([a EXCEPT !.rq = 0], a.rq)
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "vput" -> a.next <= NItems
    [] o.op = "vset" -> o.x \in a.q /\ a.p[o.x] # o.p
    [] o.op = "vnow" -> TRUE
    [] o.op = "vget" -> a.ng < NGetters
    [] o.op = "tick" -> a.rq > 0
    [] OTHER -> TRUE
Ops == [op : {"vput"}, p : Prios] \cup [op : {"vset"}, x : 1..NItems, p : Prios] \cup [op : {"vnow", "vget", "gcancel"}] \cup [op : {"tick"}, w : 1..W]
Init == s = Fresh /\ h = <<[vpq |-> TRUE]>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit) => PrintT(ToJson(h))
============================================================================
