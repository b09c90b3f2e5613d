----------------------------- MODULE FutExprMon ---------------------------
(* C27: expressions over ASyncFutures.  Values are texts: v3 is what leaf 3 *)
(* yields, (v3+p1) that value plus the plain operand p1, and so on; "bad"   *)
(* values are refused by every operator.                                    *)
(*  node n k f l r    k: fut / aw / plain (leaves), app (f applied to l, r) *)
(*  body n / end n o  the awaitable of leaf n runs; o: v, z (bad) or x      *)
(*  await t n / res t o   task t awaits node n and gets o                   *)
(*  mat n how m run o     n is materialised (m: the other operand), while   *)
(*                    the loop is running or not                            *)
(*  kept n same       a future is looked up in a dict it was put in before  *)
(*  deps n up down; quiet                                                   *)
EXTENDS Lib, TLC
Init0(cfg) == [node |-> Empty, beg |-> {}, out |-> Empty, want |-> Empty, fixed |-> Empty, res |-> {}]
V(x, b) == [t |-> "v", s |-> x, bad |-> b]
X(x) == [t |-> "x", s |-> x, bad |-> FALSE]
Text(f, a, b) == IF f \in {"<", "<="} THEN "(" \o b \o (IF f = "<" THEN ">" ELSE ">=") \o a \o ")" ELSE "(" \o a \o f \o b \o ")"
Apply(f, a, b) == IF a.bad \/ b.bad THEN X("E:Boom:" \o Text(f, a.s, b.s)) ELSE V(Text(f, a.s, b.s), FALSE)
LeafOut(n, o) == CASE o = "v" -> V("v" \o ToString(n), FALSE) [] o = "z" -> V("v" \o ToString(n), TRUE) [] OTHER -> X("x" \o ToString(n))
\* what node n may come out as, as far as that is settled
RECURSIVE Outs(_, _)
Outs(st, n) ==
  IF n \notin DOMAIN st.node THEN {}
  ELSE IF n \in DOMAIN st.fixed THEN {st.fixed[n]}
  ELSE LET x == st.node[n] IN
    CASE x.k = "plain" -> {V("p" \o ToString(n), FALSE)}
      [] x.k # "app" -> IF n \in DOMAIN st.out THEN {LeafOut(n, st.out[n])} ELSE {}
      [] OTHER -> LET L == Outs(st, x.l)
                      R == Outs(st, x.r)
                  IN {y \in L \cup R : y.t = "x"} \cup UNION {{Apply(x.f, a, b) : a \in {y \in L : y.t = "v"}} : b \in {y \in R : y.t = "v"}}
RECURSIVE Under(_, _)
Under(st, n) == IF n \notin DOMAIN st.node THEN {} ELSE IF st.node[n].k # "app" THEN {n} ELSE {n} \cup Under(st, st.node[n].l) \cup Under(st, st.node[n].r)
Leaves(st, n) == {x \in Under(st, n) : st.node[x].k \in {"fut", "aw"}}
Futs(st, n) == {x \in Under(st, n) : st.node[x].k \in {"fut", "app"}}
Str(x) == (IF x.t = "v" THEN "=" ELSE "!") \o x.s
Strs(S) == {Str(x) : x \in S}
Converted(how, x, y) ==
  IF x.t = "x" THEN x
  ELSE IF how \in {"eq", "in"} /\ y.t = "x" THEN y
  ELSE CASE how = "result" -> x
         [] how = "eq" -> V("eq(" \o x.s \o "," \o y.s \o ")", FALSE)
         [] how = "in" -> V("in(" \o y.s \o "," \o x.s \o ")", FALSE)
         [] OTHER -> V(how \o "(" \o x.s \o ")", FALSE)
Mats(st, e) == LET A == Outs(st, e.n)
                   B == IF e.how \in {"eq", "in"} THEN Outs(st, e.m) ELSE A
               IN UNION {{Converted(e.how, x, y) : x \in A} : y \in B} \cup {x \in A \cup B : x.t = "x"}
Why(st, e) ==
  CASE e.op \in {"node", "await"} -> {}
    [] e.op = "body" -> Flag(e.n \in st.beg, "an awaitable ran more than once")
    [] e.op = "end" -> Flag(e.n \in DOMAIN st.out, "an awaitable ran more than once")
    [] e.op = "res" -> Flag(e.o \notin Strs(Outs(st, GetOr(st.want, e.t, 0))), "an expression yields something else than the same expression over the results")
    [] e.op = "mat" ->
         IF e.run
         THEN Flag(e.o # "!E:RuntimeError" /\ e.o \notin Strs(Mats(st, e)), "materialising an expression yields something else than the same expression over the results")
              \cup Flag(e.o = "!E:RuntimeError" /\ e.how \notin {"eq", "in"} /\ e.n \in DOMAIN st.fixed /\ st.fixed[e.n].t = "v", "an awaited future is refused although its value is known")
         ELSE Flag(e.o \notin Strs(Mats(st, e)), "materialising an expression yields something else than the same expression over the results")
    [] e.op = "kept" -> Flag(~e.same, "a future is not found again in a dict of which it is a key")
    [] e.op = "deps" -> Flag(Range(e.up) # Futs(st, e.n) \ {e.n} \/ Range(e.down) # {x \in DOMAIN st.node : x # e.n /\ e.n \in Under(st, x)}, "the dependencies or dependants of a future are wrong")
    [] e.op = "quiet" ->
         LET open == {t \in DOMAIN st.want : t \notin st.res} IN
         Flag(\E t \in open : Leaves(st, st.want[t]) \subseteq DOMAIN st.out, "an awaited expression gets no result although its operands have theirs") \cup
         Flag(\E t \in open : Outs(st, st.want[t]) = {} /\ ~ Leaves(st, st.want[t]) \subseteq st.beg, "an operand of an awaited expression does not run meanwhile")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "node" -> [st EXCEPT !.node = Put(@, e.n, [k |-> e.k, f |-> e.f, l |-> e.l, r |-> e.r])]
    [] e.op = "body" -> [st EXCEPT !.beg = @ \cup {e.n}]
    [] e.op = "end" -> [st EXCEPT !.out = Put(@, e.n, e.o)]
    [] e.op = "await" -> [st EXCEPT !.want = Put(@, e.t, e.n)]
    [] e.op = "res" -> LET n == st.want[e.t] IN [st EXCEPT !.res = @ \cup {e.t}, !.fixed = IF e.o \in Strs(Outs(st, n)) THEN Put(@, n, CHOOSE x \in Outs(st, n) : Str(x) = e.o) ELSE @]
    [] OTHER -> st
============================================================================
