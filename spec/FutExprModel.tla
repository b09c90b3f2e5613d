---------------------------- MODULE FutExprModel --------------------------
(* Futures with one task each, expression futures which gather theirs.      *)
EXTENDS FutExprMon, TLC, Json
CONSTANTS MaxN, MaxApp, MaxT, MaxMat, Fs, Hows, Kinds, Outcomes, MaxSize, MaxLen, MinEmit, W, Shared, Ordered
VARIABLES s, h
vars == <<s, h>>
Cfg == [x |-> "e"]
Fresh == [n |-> 0, t |-> 0, mats |-> 0, set |-> Empty, mon |-> Init0(Cfg), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Node(a, k, f, l, r) == Emit([a EXCEPT !.n = @ + 1], [op |-> "node", n |-> a.n + 1, k |-> k, f |-> f, l |-> l, r |-> r])
Kind(a, n) == a.mon.node[n].k
\* the code's own evaluation
RECURSIVE Val(_, _)
Val(a, n) ==
  IF n \in DOMAIN a.mon.fixed THEN a.mon.fixed[n]
  ELSE IF Kind(a, n) = "app"
  THEN LET x == a.mon.node[n]
           L == Val(a, x.l)
           R == Val(a, x.r)
       IN IF "x" \in {L.t, R.t} THEN (IF L.t = "x" THEN L ELSE R) ELSE IF "" \in {L.t, R.t} THEN V("", FALSE)
          ELSE IF Ordered \/ x.f # "-" THEN Apply(x.f, L, R) ELSE Apply(x.f, R, L)
  ELSE LET S == Outs(a.mon, n) IN IF S = {} THEN [t |-> "", s |-> "", bad |-> FALSE] ELSE CHOOSE x \in S : TRUE
RECURSIVE Done(_, _)
Done(a, n) == IF Kind(a, n) = "app" THEN LET x == a.mon.node[n] IN (Done(a, x.l) /\ Done(a, x.r)) \/ (\E y \in {x.l, x.r} : Done(a, y) /\ Val(a, y).t = "x")
              ELSE Kind(a, n) = "plain" \/ n \in DOMAIN a.mon.out
End(a, n) == IF n \in DOMAIN a.set /\ n \in a.mon.beg /\ n \notin DOMAIN a.mon.out THEN Emit(a, [op |-> "end", n |-> n, o |-> a.set[n]]) ELSE a
RECURSIVE Start(_, _)
Start(a, S) == IF S = {} THEN a ELSE LET n == MinOf(S) IN Start(End(IF n \in a.mon.beg /\ Shared THEN a ELSE Emit(a, [op |-> "body", n |-> n]), n), S \ {n})
RECURSIVE Answer(_, _)
Answer(a, t) == IF t > a.t THEN a
  ELSE Answer(IF t \in DOMAIN a.mon.want /\ t \notin a.mon.res /\ Done(a, a.mon.want[t]) THEN Emit(a, [op |-> "res", t |-> t, o |-> Str(Val(a, a.mon.want[t]))]) ELSE a, t + 1)
RECURSIVE Preset(_, _)
Preset(a, S) == IF S = {} THEN a ELSE LET n == MinOf(S) IN Preset([a EXCEPT !.set = Put(@, n, GetOr(a.set, n, "v"))], S \ {n})
RECURSIVE EndAll(_, _)
EndAll(a, S) == IF S = {} THEN a ELSE EndAll(End(a, MinOf(S)), S \ {MinOf(S)})
All(a) == 1..a.n
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o Sorted(S \ {MinOf(S)})
Need(o) == IF o.how \in {"eq", "in"} THEN {o.n, o.m} ELSE {o.n}
RECURSIVE Big(_, _)
Big(a, n) == IF Kind(a, n) = "app" THEN Big(a, a.mon.node[n].l) + Big(a, a.mon.node[n].r) ELSE 1
Do(a, o) ==
  CASE o.op = "leaf" -> Node(a, o.k, "", 0, 0)
    [] o.op = "app" -> Node(a, "app", o.f, o.n, o.m)
    [] o.op = "await" -> LET b == Emit([a EXCEPT !.t = @ + 1], [op |-> "await", t |-> a.t + 1, n |-> o.n])
                         IN Answer(Start(b, Leaves(a.mon, o.n)), 1)
    [] o.op = "fin" -> Answer(End([a EXCEPT !.set = Put(@, o.n, o.o)], o.n), 1)
    [] o.op = "mat" ->
         IF o.run
         THEN Emit([a EXCEPT !.mats = @ + 1], [op |-> "mat", n |-> o.n, how |-> o.how, m |-> o.m, run |-> TRUE,
                       o |-> IF o.how \notin {"eq", "in"} /\ o.n \in DOMAIN a.mon.fixed /\ Val(a, o.n).t = "v" THEN Str(Converted(o.how, Val(a, o.n), Val(a, o.n))) ELSE "!E:RuntimeError"])
         ELSE LET S == UNION {Leaves(a.mon, x) : x \in Need(o)}
                  b == Preset([a EXCEPT !.mats = @ + 1], S)
                  c == Answer(EndAll(Start(b, S), S), 1)
                  y == IF o.how \in {"eq", "in"} THEN Val(c, o.m) ELSE Val(c, o.n)
              IN Emit(c, [op |-> "mat", n |-> o.n, how |-> o.how, m |-> o.m, run |-> FALSE, o |-> Str(Converted(o.how, Val(c, o.n), y))])
    [] o.op = "deps" -> Emit(a, [op |-> "deps", n |-> o.n, up |-> Sorted(Futs(a.mon, o.n) \ {o.n}), down |-> Sorted({x \in All(a) : x # o.n /\ o.n \in Under(a.mon, x)})])
    [] o.op = "settle" -> Emit(a, [op |-> "quiet"])
    [] OTHER -> a
Used(a, n) == \E x \in DOMAIN a.mon.node : n \in {a.mon.node[x].l, a.mon.node[x].r}
IsFut(a, n) == n \in All(a) /\ Kind(a, n) \in {"fut", "app"}
Apps(a) == {n \in All(a) : Kind(a, n) = "app"}
Operand(a, n) == n \in All(a) /\ (Kind(a, n) = "aw" => ~Used(a, n))
Can(a, o) ==
  CASE o.op = "leaf" -> a.n - Cardinality(Apps(a)) < MaxN - MaxApp /\ o.k \in Kinds
    [] o.op = "app" -> Cardinality(Apps(a)) < MaxApp /\ Operand(a, o.n) /\ Operand(a, o.m) /\ (IsFut(a, o.n) \/ IsFut(a, o.m)) /\ (o.n = o.m => IsFut(a, o.n)) /\ Big(a, o.n) + Big(a, o.m) <= MaxSize
    [] o.op = "await" -> a.t < MaxT /\ IsFut(a, o.n)
    [] o.op = "fin" -> o.n \in All(a) /\ Kind(a, o.n) \in {"fut", "aw"} /\ o.n \notin DOMAIN a.set
    [] o.op = "mat" -> a.mats < MaxMat /\ IsFut(a, o.n) /\ (IF o.how \in {"eq", "in"} THEN o.m \in All(a) /\ Kind(a, o.m) # "aw" ELSE o.m = 1)
    [] o.op = "deps" -> W > 0 /\ IsFut(a, o.n)
    [] o.op = "settle" -> Len(h) > 2 /\ (W = 2 \/ h[Len(h)].op # "settle")
    [] OTHER -> FALSE
\* a set of texts as a sequence, in no particular order
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
Nodes == 1..s.n
\* when drawing long scripts (W = 2), the kinds of steps take turns and each step has one operator or way to look
\* at a value: the many of them would crowd the rest out (and cost TLC one successor state each)
Mix(k) == 1 + ((Len(h) * 5 + s.n * 3 + s.t * 7 + s.mats + Cardinality(DOMAIN s.set)) % k)
Some(S) == IF W < 2 THEN S ELSE {Listed(S)[Mix(Cardinality(S))]}
One == Some(Hows) \ {"eq", "in"}
Two == Some(Hows) \cap {"eq", "in"}
Build == [op : {"leaf"}, k : Kinds] \cup [op : {"app"}, f : Some(Fs), n : Nodes, m : Nodes]
Go == [op : {"await"}, n : Nodes] \cup [op : {"fin"}, n : Nodes, o : Outcomes]
Look == [op : {"mat"}, n : Nodes, how : One, m : {1}, run : BOOLEAN] \cup [op : {"mat"}, n : Nodes, how : Two, m : Nodes, run : BOOLEAN] \cup [op : {"deps"}, n : Nodes]
Settle == [op : {"settle"}, w : {1}]
Ops == IF W < 2 THEN Build \cup Go \cup Look \cup Settle
       ELSE CASE Len(h) % 4 \in {1, 3} -> Build \cup Settle
              [] Len(h) % 4 = 2 -> Go \cup Settle
              [] OTHER -> Go \cup Look \cup Settle
Init == s = Fresh /\ h = <<Cfg>>
Step(o) == Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Next == \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
