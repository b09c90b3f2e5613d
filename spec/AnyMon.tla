------------------------------- MODULE AnyMon -----------------------------
(* C19: utils.any / utils.all over n awaitables.  cfg: fn, n, strict (all   *)
(* awaitables are of one kind, so completions of one instant are ordered),  *)
(* ex (awaitables exempt from the cancellation duty).                       *)
(*  begin / start i / comp i o  (o: "t", "f" or an exception)               *)
(*  res v (TRUE/FALSE) / raise o / gone i (i was cancelled) / quiet         *)
EXTENDS Lib
Init0(cfg) == [fn |-> cfg.fn, n |-> cfg.n, strict |-> cfg.strict, ex |-> Range(cfg.ex), out |-> Empty, ord |-> <<>>, batch |-> Empty, b |-> 0, began |-> FALSE, over |-> FALSE, short |-> FALSE,
               started |-> {}, gone |-> {}]
N(st) == 1..st.n
Ends(st) == DOMAIN st.out
Hit(st) == IF st.fn = "any" THEN "t" ELSE "f"
Miss(st) == IF st.fn = "any" THEN "f" ELSE "t"
Before(st, j, i) == \/ st.batch[j] < st.batch[i]
                    \/ st.strict /\ st.batch[j] = st.batch[i] /\ st.batch[j] > 1 /\ IndexOf(st.ord, j) < IndexOf(st.ord, i)
Deciders(st) == {i \in Ends(st) : st.out[i] # Miss(st)}
First(st) == {i \in Deciders(st) : ~ \E j \in Deciders(st) : Before(st, j, i)}
Why(st, e) ==
  CASE e.op \in {"begin", "start"} -> {}
    [] e.op = "comp" -> Flag(e.i \in Ends(st), "harness: completed twice")
    [] e.op = "res" ->
         Flag(st.over, "answered twice") \cup
         (IF e.v = (st.fn = "any") THEN Flag(~ \E i \in First(st) : st.out[i] = Hit(st), "decided without, or not by the earliest, deciding awaitable")
          ELSE Flag(Ends(st) # N(st), "answered before all are done and without a deciding one") \cup Flag(Deciders(st) # {}, "the answer ignores a deciding awaitable"))
    [] e.op = "raise" -> Flag(~ \E i \in First(st) : st.out[i] = e.o, "raised what no awaitable raised before the decision")
    [] e.op = "gone" -> Flag(~st.over, "an awaitable was cancelled before the decision")
    [] e.op = "quiet" ->
         IF ~st.began THEN {}
         ELSE IF ~st.over THEN Flag(st.started # N(st), "an awaitable does not run") \cup Flag(Deciders(st) # {} \/ Ends(st) = N(st), "sleeps although decided")
         ELSE Flag(st.short /\ N(st) \ (Ends(st) \cup st.gone \cup st.ex) # {}, "an awaitable that is not needed was not cancelled")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "begin" -> [st EXCEPT !.began = TRUE]
    [] e.op = "start" -> [st EXCEPT !.started = @ \cup {e.i}]
    [] e.op = "comp" -> [st EXCEPT !.out = Put(@, e.i, e.o), !.ord = Append(@, e.i), !.batch = Put(@, e.i, st.b)]
    [] e.op = "res" -> [st EXCEPT !.over = TRUE, !.short = (e.v = (st.fn = "any"))]
    [] e.op = "raise" -> [st EXCEPT !.over = TRUE]
    [] e.op = "gone" -> [st EXCEPT !.gone = @ \cup {e.i}]
    [] e.op = "quiet" -> [st EXCEPT !.b = IF st.began THEN Max2(2, @ + 1) ELSE 1]
    [] OTHER -> st
============================================================================
