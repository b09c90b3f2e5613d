------------------------------ MODULE EventMon ----------------------------
(* C05: Event.   start t / got t r / end t how / cancel t / set / clear /   *)
(* q isset / quiet                                                          *)
EXTENDS Lib
Init0(cfg) == [on |-> FALSE, wait |-> {}, freed |-> {}, doomed |-> {}]
Why(st, e) ==
  CASE e.op \in {"start", "cancel", "set", "clear"} -> {}
    [] e.op = "got"   -> Flag(e.t \notin st.freed, "wait() returned while the event was not set")
                         \cup Flag(e.r # "True", "wait() did not return True")
    [] e.op = "end"   -> Flag(e.t \notin st.doomed \/ e.how # "cancelled", "wait() failed without being cancelled")
    [] e.op = "q"     -> Flag(e.isset # st.on, "is_set() is wrong")
    [] e.op = "quiet" -> Flag((st.freed \ st.doomed) # {}, "a waiter sleeps although the event was set after it began to wait")
                         \cup Flag(((st.freed \cup st.wait) \cap st.doomed) # {}, "a cancelled waiter never ended")
    [] OTHER          -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "start"  -> IF st.on THEN [st EXCEPT !.freed = @ \cup {e.t}] ELSE [st EXCEPT !.wait = @ \cup {e.t}]
    [] e.op = "cancel" -> [st EXCEPT !.doomed = @ \cup {e.t}]
    [] e.op = "set"    -> [st EXCEPT !.on = TRUE, !.freed = @ \cup st.wait, !.wait = {}]
    [] e.op = "clear"  -> [st EXCEPT !.on = FALSE]
    [] e.op \in {"got", "end"} -> [st EXCEPT !.wait = @ \ {e.t}, !.freed = @ \ {e.t}]
    [] OTHER           -> st
============================================================================
