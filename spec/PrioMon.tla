------------------------------ MODULE PrioMon -----------------------------
(* C03: PrioritySemaphore.  A freed permit belongs, from the moment it is   *)
(* freed, to the best waiter (lowest priority number, then waiting order).  *)
(*   start t p   task t begins to acquire with priority p                   *)
(*   got t r / end t how / cancel t / rel / quiet / drain n / probe         *)
EXTENDS Lib
Init0(cfg) == [free |-> cfg.n, wait |-> <<>>, pr |-> Empty, granted |-> {}, doomed |-> {}]
Live(st) == SelectSeq(st.wait, LAMBDA t : t \notin st.doomed)
\* the waiter the next free permit belongs to; 0 if nobody waits
Best(st) ==
  LET w == Live(st)
  IN IF w = <<>> THEN 0
     ELSE LET p == MinOf({st.pr[w[i]] : i \in DOMAIN w})
          IN Head(SelectSeq(w, LAMBDA t : st.pr[t] = p))
Free1(st) == \* one permit becomes free
  LET b == Best(st)
  IN IF b = 0 THEN [st EXCEPT !.free = @ + 1]
     ELSE [st EXCEPT !.wait = Without(@, b), !.granted = @ \cup {b}]
Why(st, e) ==
  CASE e.op = "start"  -> {}
    [] e.op = "got"    ->
         (IF e.t \in st.granted THEN {}
          ELSE IF st.free = 0 /\ st.granted = {} THEN {"more holders than permits"}
          ELSE {"a permit went to another task than the best waiter"})
         \cup Flag(e.r # "True", "acquire did not return True")
    [] e.op = "end"    -> Flag(e.t \notin st.doomed, "an acquire failed without being cancelled")
                          \cup Flag(e.how # "cancelled", "acquire raised something else than the cancellation")
    [] e.op = "cancel" -> {}
    [] e.op = "rel"    -> {}
    [] e.op = "probe"  -> Flag(e.locked # e.waited, "locked() disagrees with what a newcomer experiences")
    [] e.op = "quiet"  ->
         Flag(st.granted # {}, "a permit was freed but its waiter sleeps")
         \cup Flag(Live(st) # <<>> /\ st.free > 0, "a waiter sleeps although a permit is free")
         \cup Flag(Range(st.wait) \cap st.doomed # {}, "a cancelled waiter never ended")
    [] e.op = "drain"  -> Flag(e.n # st.free, "permits were lost or invented")
    [] OTHER           -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "start"  ->
         LET s1 == [st EXCEPT !.pr = Put(@, e.t, e.p)]
         IN IF st.free > 0 THEN [s1 EXCEPT !.free = @ - 1, !.granted = @ \cup {e.t}]
            ELSE [s1 EXCEPT !.wait = Append(@, e.t)]
    [] e.op = "got"    -> [st EXCEPT !.granted = @ \ {e.t}]
    [] e.op = "end"    -> IF e.t \in st.granted THEN Free1([st EXCEPT !.granted = @ \ {e.t}])
                          ELSE [st EXCEPT !.wait = Without(@, e.t)]
    [] e.op = "cancel" -> [st EXCEPT !.doomed = @ \cup {e.t}]
    [] e.op = "rel"    -> Free1(st)
    [] OTHER           -> st
============================================================================
