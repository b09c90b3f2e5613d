----------------------------- MODULE CounterMon ---------------------------
(* C04: CounterLock and CounterLockCluster.  cfg.v0: start value per lock.  *)
(*   start t ls v  task t waits until every lock of ls reached v            *)
(*   got t r / end t how / cancel t / quiet                                 *)
(*   set l v r     assignment (r: "ok" or the exception); val: read back    *)
(*   q l v ready val   is_ready(v) and value                                *)
EXTENDS Lib
Init0(cfg) == [val |-> cfg.v0, w |-> Empty, doomed |-> {}]
Reached(st, t) == \A i \in DOMAIN st.w[t].ls : st.val[st.w[t].ls[i]] >= st.w[t].v
Why(st, e) ==
  CASE e.op = "start"  -> {}
    [] e.op = "cancel" -> {}
    [] e.op = "got"    -> Flag(~Reached(st, e.t), "a waiter was released below its target")
                          \cup Flag(e.r # "True", "wait_for did not return True")
    [] e.op = "end"    -> Flag(e.t \notin st.doomed \/ e.how # "cancelled", "wait_for failed without being cancelled")
    [] e.op = "set"    -> (IF e.v < st.val[e.l] THEN Flag(e.r # "ValueError", "the counter was decreased without ValueError")
                           ELSE IF e.v > st.val[e.l] THEN Flag(e.r # "ok", "raising the counter failed")
                           ELSE Flag(e.r \notin {"ok", "ValueError"}, "assigning the same value failed"))
                          \cup Flag(e.val # Max2(st.val[e.l], e.v), "the value is not the one assigned")
    [] e.op = "q"      -> Flag(e.ready # (st.val[e.l] >= e.v), "is_ready is wrong")
                          \cup Flag(e.val # st.val[e.l], "the value changed by itself")
    [] e.op = "quiet"  -> Flag(\E t \in DOMAIN st.w : t \notin st.doomed /\ Reached(st, t), "a waiter sleeps although its target is reached")
                          \cup Flag(\E t \in DOMAIN st.w : t \in st.doomed, "a cancelled waiter never ended")
    [] OTHER           -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "start"  -> [st EXCEPT !.w = Put(@, e.t, [ls |-> e.ls, v |-> e.v])]
    [] e.op = "cancel" -> [st EXCEPT !.doomed = @ \cup {e.t}]
    [] e.op \in {"got", "end"} -> [st EXCEPT !.w = Del(@, e.t)]
    [] e.op = "set"    -> [st EXCEPT !.val[e.l] = Max2(@, e.v)]
    [] OTHER           -> st
============================================================================
