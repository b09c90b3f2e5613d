------------------------------- MODULE TaskMon ----------------------------
(* C13: create_task.                                                        *)
(*  create t p q       task t was created; p: skip_gc_until_done, q: pending *)
(*                     destruction must not be logged                       *)
(*  name t got want                                                         *)
(*  run t / end t o    the awaitable of t starts / ends with outcome o      *)
(*  done t o           the returned task is seen done with outcome o        *)
(*  cancel t / cancelall                                                    *)
(*  drop t             the user gives up the last reference to t            *)
(*  lost t             t was garbage collected while pending                *)
(*  kept t             t is done and dropped, yet still alive after a gc    *)
(*  report t           the loop's exception handler got the failure of a    *)
(*                     persisted task                                       *)
(*  destroyed t        ... got "Task was destroyed but it is pending"       *)
(*  quiet                                                                   *)
EXTENDS Lib
Init0(cfg) == [made |-> {}, pers |-> {}, nolog |-> {}, ran |-> {}, out |-> Empty, fail |-> {}, done |-> {}, cxl |-> {}, dropped |-> {}, lost |-> {},
               rep |-> {}, settled |-> {}, due |-> {}]
Why(st, e) ==
  CASE e.op \in {"cancel", "cancelall", "drop"} -> {}
    [] e.op = "create" -> Flag(e.t \in st.made, "harness: task number")
    [] e.op = "name" -> Flag(e.got # e.want, "a task does not have the requested name")
    [] e.op = "run" -> Flag(e.t \in st.ran, "an awaitable was run twice")
    [] e.op = "end" -> Flag(e.o = "cancelled" /\ e.t \notin st.cxl, "an awaitable was cancelled although nobody asked for it")
    [] e.op = "done" ->
         IF e.o = "cancelled" THEN Flag(e.t \notin st.cxl /\ GetOr(st.out, e.t, "") # "cancelled", "a task was cancelled although nobody asked for it")
         ELSE Flag(e.t \notin DOMAIN st.out \/ st.out[e.t] # e.o, "a task does not have the outcome of its awaitable")
    [] e.op = "lost" -> Flag(e.t \in st.pers, "a persisted task was garbage collected before it was done")
                        \cup Flag(e.t \notin st.dropped, "a task was garbage collected although it was referenced")
    [] e.op = "kept" -> Flag(e.t \in st.due, "a task is retained after it was done")
    [] e.op = "report" -> Flag(e.t \notin st.pers \/ e.t \notin st.fail, "a failure was reported that did not happen")
                          \cup Flag(e.t \in st.rep, "a failure was reported twice")
    [] e.op = "destroyed" -> Flag(e.t \in st.nolog, "the destruction of a pending task was logged although it was asked not to be")
    [] e.op = "quiet" ->
         Flag((st.due \cap st.pers \cap st.fail) \ (st.rep \cup st.cxl) # {}, "the failure of a persisted task was never reported")
         \cup Flag(st.made \ (st.ran \cup st.cxl \cup st.lost) # {}, "a task never ran its awaitable")
         \cup Flag(DOMAIN st.out \ (st.done \cup st.dropped) # {}, "a task is not done although its awaitable is")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "create" -> [st EXCEPT !.made = @ \cup {e.t}, !.pers = IF e.p THEN @ \cup {e.t} ELSE @, !.nolog = IF e.q THEN @ \cup {e.t} ELSE @,
                                     !.due = @ \cup st.settled]
    [] e.op = "run" -> [st EXCEPT !.ran = @ \cup {e.t}]
    [] e.op = "end" -> [st EXCEPT !.out = Put(@, e.t, e.o), !.fail = IF e.f THEN @ \cup {e.t} ELSE @]
    [] e.op = "done" -> [st EXCEPT !.done = @ \cup {e.t}]
    [] e.op = "cancel" -> [st EXCEPT !.cxl = @ \cup {e.t}]
    [] e.op = "cancelall" -> [st EXCEPT !.cxl = @ \cup (st.made \ st.settled)]
    [] e.op = "drop" -> [st EXCEPT !.dropped = @ \cup {e.t}]
    [] e.op = "lost" -> [st EXCEPT !.lost = @ \cup {e.t}]
    [] e.op = "report" -> [st EXCEPT !.rep = @ \cup {e.t}]
    [] e.op = "quiet" -> [st EXCEPT !.settled = @ \cup st.done \cup DOMAIN st.out]
    [] OTHER -> st
============================================================================
