------------------------------ MODULE SemMon ------------------------------
(* C01: what a user may rely on when tasks share one Semaphore.             *)
(*   spawn t      a task is created that will acquire (tasks start in       *)
(*                creation order)                                           *)
(*   got t r      its acquire returned r                                    *)
(*   end t how    it ended without a permit                                 *)
(*   cancel t     somebody cancelled it                                     *)
(*   rel          one release                                               *)
(*   probe        locked() against what a newcomer experiences              *)
(*   quiet        no callback is runnable                                   *)
(*   drain n      every waiter was cancelled: n newcomers in a row got in   *)
EXTENDS Lib
Init0(cfg) == [free |-> cfg.n, wait |-> <<>>, doomed |-> {}]
Live(st) == SelectSeq(st.wait, LAMBDA t : t \notin st.doomed)
Why(st, e) ==
  CASE e.op = "spawn"  -> {}
    [] e.op = "got"    ->
         Flag(st.free <= 0, "more holders than permits")
         \cup Flag(e.t \notin Range(st.wait), "a permit was granted twice")
         \cup Flag(\E i \in DOMAIN st.wait :
                     /\ i < IndexOf(st.wait, e.t)
                     /\ st.wait[i] \notin st.doomed, "granted out of waiting order")
         \cup Flag(e.r # "True", "acquire did not return True")
    [] e.op = "end"    ->
         Flag(e.t \in Range(st.wait) /\ e.t \notin st.doomed, "an acquire failed without being cancelled")
         \cup Flag(e.how \notin {"cancelled"}, "acquire raised something else than the cancellation")
    [] e.op = "cancel" -> {}
    [] e.op = "rel"    -> {}
    [] e.op = "probe"  -> Flag(e.locked # e.waited, "locked() disagrees with what a newcomer experiences")
    [] e.op = "quiet"  ->
         Flag(st.free > 0 /\ Live(st) # <<>>, "a waiter sleeps although a permit is free")
         \cup Flag(\E t \in Range(st.wait) : t \in st.doomed, "a cancelled waiter never ended")
         \cup Flag(e.locked # (st.free = 0), "locked() is wrong at rest")
    [] e.op = "drain"  -> Flag(e.n # st.free, "permits were lost or invented")
    [] e.op = "neg"    -> Flag(e.r # "ValueError", "a negative initial value was accepted")
    [] OTHER           -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "spawn"  -> [st EXCEPT !.wait = Append(@, e.t)]
    [] e.op = "got"    -> [st EXCEPT !.wait = Without(@, e.t), !.free = @ - 1]
    [] e.op = "end"    -> [st EXCEPT !.wait = Without(@, e.t)]
    [] e.op = "cancel" -> [st EXCEPT !.doomed = @ \cup {e.t}]
    [] e.op = "rel"    -> [st EXCEPT !.free = @ + 1]
    [] OTHER           -> st
============================================================================
