------------------------------- MODULE GathMon ----------------------------
(* C14/C15: gather and as_completed over n awaitables (positional or the    *)
(* values of a mapping with keys 1..n).  cfg: kind, n, rex, aiter,          *)
(* tmo (tenths, 0: none), strict (all awaitables are of one kind).          *)
(*  begin t            the operation starts                                 *)
(*  start i            awaitable i runs                                     *)
(*  comp i o f x       i is done with o; f: a failure, x: exclude_if        *)
(*                     accepts o                                            *)
(*  adv t              the clock shows t                                    *)
(*  res q / resm ks vs / raise o              gather's outcome              *)
(*  want / item k o / fail o / tmo / endit    as_completed, item by item    *)
(*  quiet                                                                   *)
EXTENDS Lib
Init0(cfg) == [kind |-> cfg.kind, n |-> cfg.n, rex |-> cfg.rex, aiter |-> cfg.aiter, tmo |-> cfg.tmo, strict |-> cfg.strict, out |-> Empty, fail |-> {}, excl |-> {},
               ord |-> <<>>, late |-> {}, batch |-> Empty, b |-> 0, began |-> FALSE, settled |-> FALSE, started |-> {}, now |-> 0, dl |-> 0,
               rep |-> {}, pos |-> 0, want |-> FALSE, over |-> FALSE, timed |-> FALSE]
N(st) == 1..st.n
Ends(st) == DOMAIN st.out
\* j is certainly earlier than i
Before(st, j, i) == \/ st.batch[j] < st.batch[i]
                    \/ st.strict /\ st.batch[j] = st.batch[i] /\ st.batch[j] > 1 /\ IndexOf(st.ord, j) < IndexOf(st.ord, i)
Expired(st) == st.tmo > 0 /\ st.began /\ st.now >= st.dl
\* completions that as_completed owes and has not delivered
Owed(st) == (Ends(st) \ st.late) \ st.rep
Position(st, cands) ==
  Flag(~ \E i \in cands : ~ \E j \in Owed(st) : Before(st, j, i), "an outcome was delivered before one that completed earlier")
Keep(st) == SelectSeq([i \in 1..st.n |-> i], LAMBDA i : i \notin st.excl)
Why(st, e) ==
  CASE e.op \in {"begin", "start", "adv"} -> {}
    [] e.op = "want" -> {}
    [] e.op = "comp" -> Flag(e.i \in Ends(st), "harness: completed twice")
    [] e.op = "res" -> Flag(Ends(st) # N(st) \/ (st.fail # {} /\ ~st.rex), "gather returned before everything was done, or despite a failure")
                       \cup (IF Ends(st) # N(st) THEN {} ELSE Flag(e.q # [i \in 1..Len(Keep(st)) |-> st.out[Keep(st)[i]]], "gather's results are not those of its arguments in order"))
    [] e.op = "resm" -> Flag(Ends(st) # N(st) \/ (st.fail # {} /\ ~st.rex), "gather returned before everything was done, or despite a failure")
                        \cup (IF Ends(st) # N(st) THEN {} ELSE Flag(e.ks # Keep(st) \/ e.vs # [i \in 1..Len(Keep(st)) |-> st.out[Keep(st)[i]]], "gather's mapping is not that of its argument"))
    [] e.op = "raise" -> Flag(st.rex, "gather raised although exceptions were to be returned")
                         \cup Flag(~ \E i \in st.fail : st.out[i] = e.o /\ ~ \E j \in st.fail : Before(st, j, i), "gather did not raise the first failure")
    [] e.op = "item" ->
         LET c == {i \in Owed(st) : st.out[i] = e.o /\ (st.kind = "acmap" => i = e.k) /\ (i \in st.fail => st.rex)}
         IN Flag(c = {}, "an outcome was delivered that was not due, or with a wrong key") \cup (IF c = {} THEN {} ELSE Position(st, c))
    [] e.op = "fail" ->
         LET c == {i \in Owed(st) : st.out[i] = e.o /\ i \in st.fail}
         IN Flag(c = {}, "a failure was raised that nobody raised") \cup Flag(st.rex, "a failure was raised although it was to be returned")
            \cup (IF c = {} THEN {} ELSE Position(st, c))
    [] e.op = "tmo" -> Flag(~Expired(st), "a timeout was reported too early") \cup Flag(Owed(st) # {}, "an outcome that came before the timeout was lost")
                       \cup Flag(st.pos >= st.n, "more positions than awaitables")
    [] e.op = "endit" -> Flag(st.pos # st.n, "the iteration does not have one position for each awaitable")
    [] e.op = "quiet" ->
         IF ~st.began \/ st.over THEN {}
         ELSE IF st.kind \in {"gather", "gmap"}
              THEN Flag(st.started # N(st), "an awaitable does not run") \cup Flag(Ends(st) = N(st) \/ (st.fail # {} /\ ~st.rex), "gather sleeps although it is decided")
              ELSE Flag(st.started # N(st), "an awaitable does not run")
                   \cup Flag(st.want /\ (Owed(st) # {} \/ st.pos = st.n), "the consumer sleeps although an outcome is there")
                   \cup Flag(st.want /\ Expired(st), "the consumer sleeps although the timeout expired")
    [] OTHER -> {"unexpected event " \o e.op}
\* which completion an item or failure stands for: the earliest that fits
Pick(st, e) ==
  LET c == {i \in Owed(st) : st.out[i] = e.o /\ (st.kind = "acmap" /\ e.op = "item" => i = e.k)}
      m == {i \in c : ~ \E j \in c : IndexOf(st.ord, j) < IndexOf(st.ord, i)}
  IN m
After(st, e) ==
  CASE e.op = "begin" -> [st EXCEPT !.began = TRUE, !.dl = e.t + st.tmo, !.now = e.t]
    [] e.op = "start" -> [st EXCEPT !.started = @ \cup {e.i}]
    [] e.op = "comp" -> [st EXCEPT !.out = Put(@, e.i, e.o), !.ord = Append(@, e.i), !.batch = Put(@, e.i, st.b), !.fail = IF e.f THEN @ \cup {e.i} ELSE @,
                                   !.excl = IF e.x THEN @ \cup {e.i} ELSE @, !.late = IF Expired(st) THEN @ \cup {e.i} ELSE @]
    [] e.op = "adv" -> [st EXCEPT !.now = e.t]
    [] e.op \in {"res", "resm", "raise", "endit"} -> [st EXCEPT !.over = TRUE, !.want = FALSE]
    [] e.op = "want" -> [st EXCEPT !.want = TRUE]
    [] e.op \in {"item", "fail"} -> [st EXCEPT !.rep = @ \cup Pick(st, e), !.pos = @ + 1, !.want = FALSE, !.over = st.aiter /\ e.op = "fail"]
    [] e.op = "tmo" -> [st EXCEPT !.pos = @ + 1, !.want = FALSE, !.timed = TRUE, !.over = st.aiter]
    [] e.op = "quiet" -> [st EXCEPT !.b = IF st.began THEN Max2(2, @ + 1) ELSE 1]
    [] OTHER -> st
============================================================================
