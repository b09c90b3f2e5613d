----------------------------- MODULE GuardMon -----------------------------
(* C02: calls of a function guarded by a Semaphore / ThreadsafeSemaphore /  *)
(* DummySemaphore, from one or several threads.                             *)
(*  cfg.lim: permits per group; -1 = unlimited (dummy).  A group is what    *)
(*  shares permits: the thread for a ThreadsafeSemaphore, else everything.  *)
(*   call c g want   the caller's task is created; want = the outcome the   *)
(*                   unguarded function would have                          *)
(*   enter c / exit c  the guarded body starts / ends                       *)
(*   out c r         what the caller got                                    *)
(*   cancel c        the caller's task was cancelled                        *)
(*   quiet g         nothing is runnable in group g's thread(s)             *)
(*   drain g n       n fresh calls in a row entered at once                 *)
EXTENDS Lib
Init0(cfg) == [lim |-> cfg.lim, grp |-> Empty, want |-> Empty, doomed |-> {}, wait |-> {}, run |-> {}, ended |-> {}, out |-> {}]
Running(st, g) == {c \in st.run : st.grp[c] = g}
Waiting(st, g) == {c \in st.wait : st.grp[c] = g /\ c \notin st.doomed}
Unlimited(st) == st.lim = -1
Why(st, e) ==
  CASE e.op = "call"   -> {}
    [] e.op = "cancel" -> {}
    [] e.op = "enter"  ->
         Flag(e.c \notin st.wait, "the guarded function ran more than once for one call")
         \cup Flag(~Unlimited(st) /\ e.c \in DOMAIN st.grp /\ Cardinality(Running(st, st.grp[e.c])) >= st.lim,
                   "more concurrent executions than permits")
    [] e.op = "exit"   -> Flag(e.c \notin st.run, "the guarded function ended without running")
    [] e.op = "out"    ->
         IF e.r = "cancelled" THEN Flag(e.c \notin st.doomed, "a call was cancelled though nobody cancelled it")
         ELSE Flag(e.r # st.want[e.c], "the caller got another outcome than the function's")
              \cup Flag(e.c \notin st.ended, "the caller got an outcome before the function ended")
    [] e.op = "quiet"  ->
         Flag(Waiting(st, e.g) # {} /\ (Unlimited(st) \/ Cardinality(Running(st, e.g)) < st.lim),
              "a call waits although a permit is free")
         \cup Flag(\E c \in DOMAIN st.grp : st.grp[c] = e.g /\ c \in (st.ended \cup st.doomed) /\ c \notin st.out,
                   "an ended or cancelled call never reported its outcome")
    [] e.op = "drain"  -> Flag(~Unlimited(st) /\ e.n # st.lim - Cardinality(Running(st, e.g)), "permits were lost or invented")
                          \cup Flag(Unlimited(st) /\ e.n < e.tried, "a dummy semaphore blocked")
    [] e.op = "churn"  -> Flag(e.r # "ok", "creating and dropping semaphores failed")
    [] OTHER           -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "call"   -> [st EXCEPT !.grp = Put(@, e.c, e.g), !.want = Put(@, e.c, e.want), !.wait = @ \cup {e.c}]
    [] e.op = "cancel" -> [st EXCEPT !.doomed = @ \cup {e.c}]
    [] e.op = "enter"  -> [st EXCEPT !.wait = @ \ {e.c}, !.run = @ \cup {e.c}]
    [] e.op = "exit"   -> [st EXCEPT !.run = @ \ {e.c}, !.ended = @ \cup {e.c}]
    [] e.op = "out"    -> [st EXCEPT !.out = @ \cup {e.c}, !.wait = @ \ {e.c}]
    [] OTHER           -> st
============================================================================
