-------------------------------- MODULE FutMon ----------------------------
(* C10: SmartFuture, SmartTask, shield.  Nodes are numbered; a task or a    *)
(* shield waits for a lower numbered node tgt.                              *)
(*  mk x kind tgt     kind: fut, pfut (plain), task, plain, shield          *)
(*  aw x              task x now awaits its target                          *)
(*  comp x o          somebody sets the outcome of future x                 *)
(*  cancel x          somebody calls cancel() on x                          *)
(*  done x o          x is seen to be done with outcome o                   *)
(*  count x n         num_waiters                                           *)
(*  meta x got want   a task's name and context ; quiet                     *)
EXTENDS Lib
Init0(cfg) == [kind |-> Empty, tgt |-> Empty, aw |-> {}, comp |-> Empty, out |-> Empty, doomed |-> {}]
Smart(st, x) == st.kind[x] \in {"fut", "task", "shield"}
Awaiting(st, x) == {w \in st.aw : st.tgt[w] = x /\ w \notin DOMAIN st.out}
\* the definition of the waiter count: a smart waiter counts as its own waiters, at least one
RECURSIVE Cnt(_, _), SumCnt(_, _)
SumCnt(st, S) == IF S = {} THEN 0
                 ELSE LET w == CHOOSE y \in S : TRUE
                      IN (IF Smart(st, w) THEN Max2(1, Cnt(st, w)) ELSE 1) + SumCnt(st, S \ {w})
Cnt(st, x) == IF x \in DOMAIN st.out THEN 0 ELSE SumCnt(st, Awaiting(st, x))
RECURSIVE Doom(_, _)
\* cancelling a task that awaits y cancels y, cancelling a shield stops there
Doom(st, x) == IF st.kind[x] \in {"task", "plain"} /\ x \in st.aw /\ x \notin DOMAIN st.out THEN {x} \cup Doom(st, st.tgt[x]) ELSE {x}
Why(st, e) ==
  CASE e.op \in {"mk", "aw", "comp", "cancel"} -> {}
    [] e.op = "done" ->
         LET t == st.tgt[e.x]
         IN IF e.o = "cancelled"
            THEN Flag(e.x \notin st.doomed /\ ~(t \in DOMAIN st.out /\ st.out[t] = "cancelled"), "something was cancelled that nobody cancelled")
            ELSE IF st.kind[e.x] \in {"fut", "pfut"} THEN Flag(e.x \notin DOMAIN st.comp \/ st.comp[e.x] # e.o, "a future is done with an outcome it was not given")
            ELSE Flag(t \notin DOMAIN st.out \/ st.out[t] # e.o, "a waiter or shield did not get the outcome of what it waits for")
    [] e.op = "count" -> Flag(e.n # Cnt(st, e.x), "num_waiters is not the number of unfinished tasks awaiting")
    [] e.op = "meta" -> Flag(e.got # e.want, "a task lost its name or context")
    [] e.op = "quiet" ->
         Flag(\E x \in DOMAIN st.kind : x \notin DOMAIN st.out /\ st.tgt[x] \in DOMAIN st.out, "a waiter or shield sleeps although what it waits for is done")
         \cup Flag(\E x \in DOMAIN st.kind : x \notin DOMAIN st.out /\ x \in st.doomed, "a cancelled task or future never ended")
         \cup Flag(\E x \in DOMAIN st.comp : x \notin DOMAIN st.out, "harness: completed future not seen")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "mk" -> [st EXCEPT !.kind = Put(@, e.x, e.kind), !.tgt = Put(@, e.x, e.tgt), !.aw = IF e.kind = "shield" THEN @ \cup {e.x} ELSE @]
    [] e.op = "aw" -> [st EXCEPT !.aw = @ \cup {e.x}]
    [] e.op = "comp" -> [st EXCEPT !.comp = Put(@, e.x, e.o)]
    [] e.op = "cancel" -> IF e.x \in DOMAIN st.out THEN st ELSE [st EXCEPT !.doomed = @ \cup Doom(st, e.x)]
    [] e.op = "done" -> [st EXCEPT !.out = Put(@, e.x, e.o)]
    [] OTHER -> st
============================================================================
