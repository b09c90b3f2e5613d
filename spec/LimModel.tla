------------------------------ MODULE LimModel ----------------------------
(* Semaphore and leaky bucket around a function, as the code stacks them:   *)
(* cache outside, then the semaphore, then the rate limit, then the body.   *)
EXTENDS LimMon, TLC, Json
CONSTANTS Insts, Args, Sems, Rates, Kinds, Defs, Caches, MaxK, MaxLen, MinEmit, W, Swap
VARIABLES s, h
vars == <<s, h>>
Fresh(c) == [c |-> c, k |-> 0, x |-> Empty, g |-> Empty, semq |-> <<>>, rateq |-> <<>>, held |-> {}, run |-> {}, lo |-> Empty, lv |-> Empty, now |-> 0, rq |-> <<>>, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == LET f == IF e.op \in {"call", "start", "end", "quiet"} THEN e @@ [at |-> 1000 * a.now] ELSE e IN [a EXCEPT !.bad = @ \cup Why(a.mon, f), !.mon = After(@, f)]
G(a, i) == IF a.c.shared \/ a.c.kind = "fn" THEN 1 ELSE i
Per(a) == 60 \div a.c.rate
Lv(a, g) == LET b == GetOr(a.lv, g, [lv |-> 0, t |-> 0]) IN Max2(0, b.lv - (a.now - b.t))
Run(a, x) == Emit([a EXCEPT !.run = @ \cup {x}, !.lv = IF a.c.rate = 0 THEN @ ELSE Put(@, G(a, a.g[x]), [lv |-> Lv(a, G(a, a.g[x])) + Per(a), t |-> a.now])], [op |-> "start", x |-> x])
ToRate(a, x) == IF a.c.rate = 0 THEN Run(a, x) ELSE IF Lv(a, G(a, a.g[x])) + Per(a) <= 60 THEN Run(a, x) ELSE [a EXCEPT !.rateq = Append(@, x)]
Held(a, g) == Cardinality({y \in a.held : G(a, a.g[y]) = g})
\* the mutant takes the permit only once the rate allowed the execution
ToSem(a, x) == IF a.c.sem = 0 THEN ToRate(a, x)
               ELSE IF Held(a, G(a, a.g[x])) < a.c.sem \/ Swap THEN ToRate([a EXCEPT !.held = @ \cup {x}], x)
               ELSE [a EXCEPT !.semq = Append(@, x)]
Give(a, x) ==
  LET b == [a EXCEPT !.held = @ \ {x}]
      g == G(a, a.g[x])
      Q == {j \in DOMAIN b.semq : G(b, b.g[b.semq[j]]) = g}
  IN IF x \notin a.held \/ Q = {} THEN b
     ELSE LET y == b.semq[MinOf(Q)] IN [b EXCEPT !.semq = Without(@, y), !.held = @ \cup {y}, !.rq = Append(@, <<"rate", y>>)]
Waiting(a, x) == {k \in DOMAIN a.x : a.x[k] = x}
Res(a, k, o) == [Emit(a, [op |-> "res", k |-> k, o |-> o]) EXCEPT !.x = Del(@, k)]
RECURSIVE ResAll(_, _, _)
ResAll(a, S, o) == IF S = {} THEN a ELSE LET k == MinOf(S) IN ResAll(Res(a, k, o), S \ {k}, o)
Finish(a, x, o) == LET b == Emit([a EXCEPT !.run = @ \ {x}, !.lo = Put(@, x, o)], [op |-> "end", x |-> x, o |-> o])
                       w == Give(b, x)
                   IN [w EXCEPT !.rq = Append(@, <<"res", x, o>>)]
Begin(a, k, i, r) ==
  LET x == IF a.c.cache THEN ToString(i) \o "/" \o ToString(r) ELSE ToString(k)
      b == Emit([a EXCEPT !.x = Put(@, k, x), !.g = Put(@, x, i)], [op |-> "call", k |-> k, x |-> x, i |-> i])
  IN IF x \in DOMAIN a.lo THEN Res(b, k, a.lo[x])
     ELSE IF x \in DOMAIN a.g THEN b
     ELSE IF a.c.cache THEN [b EXCEPT !.rq = Append(@, <<"sem", x>>)] ELSE ToSem(b, x)
Cut(a, k) ==
  IF k \notin DOMAIN a.x THEN a
  ELSE LET x == a.x[k] IN
       IF a.c.cache THEN Res(a, k, "!cancelled")
       ELSE IF x \in a.run THEN LET b == Emit([a EXCEPT !.run = @ \ {x}, !.lo = Put(@, x, "!cancelled")], [op |-> "end", x |-> x, o |-> "!cancelled"]) IN Give(Res(b, k, "!cancelled"), x)
       ELSE LET b == Res([a EXCEPT !.semq = Without(@, x), !.rateq = Without(@, x), !.lo = Put(@, x, "!cancelled")], k, "!cancelled") IN Give(b, x)
Run1(a, r) == CASE r[1] = "start" -> Begin(a, r[2], r[3], r[4])
                [] r[1] = "sem" -> ToSem(a, r[2])
                [] r[1] = "rate" -> IF r[2] \in a.held THEN ToRate(a, r[2]) ELSE a
                [] r[1] = "end" -> IF r[2] \in a.run THEN Finish(a, r[2], r[3]) ELSE a
                [] r[1] = "res" -> ResAll(a, Waiting(a, r[2]), r[3])
                [] r[1] = "cut" -> Cut(a, r[2])
                [] OTHER -> a
RECURSIVE Loop(_, _)
Loop(a, n) == IF n = 0 THEN a ELSE Loop(Run1([a EXCEPT !.rq = Tail(@)], Head(a.rq)), n - 1)
RECURSIVE Settle(_)
Settle(a) == IF a.rq = <<>> THEN a ELSE Settle(Loop(a, Len(a.rq)))
\* one second passes
Second(a) ==
  LET b == [a EXCEPT !.now = @ + 1]
      Q == {j \in DOMAIN b.rateq : Lv(b, G(b, b.g[b.rateq[j]])) + Per(b) <= 60}
  IN IF Q = {} THEN b ELSE LET x == b.rateq[MinOf(Q)] IN Settle(Run([b EXCEPT !.rateq = Without(@, x)], x))
RECURSIVE Pass(_, _)
Pass(a, n) == IF n = 0 THEN a ELSE Pass(Second(a), n - 1)
Running(a) == {x \in a.run : ~ \E j \in DOMAIN a.rq : IF a.rq[j][1] = "end" THEN a.rq[j][2] = x ELSE FALSE}
Pick(a, w) == LET R == Running(a) IN IF w = 1 THEN CHOOSE x \in R : TRUE ELSE CHOOSE x \in R : \E y \in R : y # x
Do(a, o) ==
  CASE o.op = "call" -> [a EXCEPT !.k = @ + 1, !.rq = Append(@, <<"start", a.k + 1, o.i, o.a>>)]
    [] o.op = "cancel" -> LET k == IF o.w = 1 THEN MinOf(DOMAIN a.x) ELSE MaxOf(DOMAIN a.x) IN [Emit(a, [op |-> "cancel", k |-> k]) EXCEPT !.rq = Append(@, <<"cut", k>>)]
    [] o.op = "end" -> LET x == Pick(a, o.w) IN [a EXCEPT !.rq = Append(@, <<"end", x, o.o \o x>>)]
    [] o.op = "adv" -> LET b == Pass(Settle(a), o.t) IN Emit(b, [op |-> "quiet"])
    [] o.op = "tick" -> Loop(a, Len(a.rq))
    [] o.op = "settle" -> Emit(Settle(a), [op |-> "quiet"])
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "call" -> a.k < MaxK /\ (a.c.kind # "fn" \/ a.c.shared \/ o.i = 1) /\ (a.c.cache \/ o.a = 1)
    [] o.op = "cancel" -> DOMAIN a.x # {} /\ (o.w = 1 \/ Cardinality(DOMAIN a.x) > 1)
    [] o.op = "end" -> Running(a) # {} /\ (o.w = 1 \/ Cardinality(Running(a)) > 1) /\ (a.c.cache => o.o = "=")
    [] o.op = "adv" -> a.k > 0 /\ (a.now + o.t < 250 \/ a.c.kind = "fn")
    [] o.op = "tick" -> a.rq # <<>>
    [] o.op = "settle" -> a.rq # <<>>
    [] OTHER -> FALSE
Ops == [op : {"call"}, i : Insts, a : Args] \cup [op : {"cancel"}, w : 1..2] \cup [op : {"end"}, w : 1..2, o : {"=", "!"}] \cup [op : {"adv"}, t : {10, 25, 60}] \cup [op : {"tick", "settle"}, w : 1..W]
Cfgs == {c \in [sem : Sems, rate : Rates, kind : Kinds, def : Defs, cache : Caches, shared : BOOLEAN] : (c.sem > 0 \/ c.rate > 0) /\ (c.shared => c.kind = "fn" /\ ~c.cache)}
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
