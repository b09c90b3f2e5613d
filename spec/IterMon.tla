------------------------------- MODULE IterMon ----------------------------
(* C16: as_yielded and exhaust_iterator(s).  Item x was made by source      *)
(* x \div 100.  cfg: kind ("yield", "exh"), n, join, queue.                 *)
(*  begin                                                                   *)
(*  made x             a source yields x                                    *)
(*  eos i / sfail i o  source i ends / fails                                *)
(*  want / item x / endit / raise o / stop       the merged iterator        *)
(*  out x / task       x is taken from the queue / one task_done            *)
(*  fin / raise o      exhaust_iterator(s) ends                             *)
(*  quiet                                                                   *)
EXTENDS Lib
Init0(cfg) == [kind |-> cfg.kind, n |-> cfg.n, join |-> cfg.join, queue |-> cfg.queue, made |-> <<>>, got |-> <<>>, ended |-> {}, errs |-> {}, done |-> 0,
               began |-> FALSE, want |-> FALSE, over |-> FALSE, stopped |-> FALSE]
All(st) == st.ended = 1..st.n
Of(q, i) == SelectSeq(q, LAMBDA x : x \div 100 = i)
NextOk(st, x) == LET m == Of(st.made, x \div 100)
                     g == Of(st.got, x \div 100)
                 IN Len(g) < Len(m) /\ m[Len(g) + 1] = x
Why(st, e) ==
  CASE e.op \in {"begin", "made", "eos", "sfail", "want", "stop", "task"} -> {}
    [] e.op = "item" -> Flag(~NextOk(st, e.x), "an item was delivered twice, out of order or never produced")
    [] e.op = "out" -> Flag(~NextOk(st, e.x), "an item was queued twice, out of order or never produced")
    [] e.op = "endit" -> Flag(~All(st), "the merged iterator ended before its sources") \cup Flag(st.errs # {}, "the failure of a source was dropped")
                         \cup Flag(Len(st.got) # Len(st.made), "the merged iterator ended without delivering every item")
    [] e.op = "raise" -> Flag(e.o \notin st.errs, "a failure was raised that no source raised")
                         \cup Flag(st.kind = "yield" /\ Len(st.got) # Len(st.made), "an item was lost because a source failed")
    [] e.op = "fin" -> Flag(~All(st), "exhausting ended before its sources did") \cup Flag(st.errs # {}, "the failure of a source was dropped")
                       \cup Flag(st.join /\ st.done < Len(st.made), "exhausting did not wait for the queue to be processed")
    [] e.op = "quiet" ->
         IF ~st.began \/ st.stopped THEN {}
         ELSE IF st.kind = "yield"
              THEN Flag(st.want /\ Len(st.got) < Len(st.made), "the consumer sleeps although an item is available")
                   \cup Flag(st.want /\ All(st), "the consumer sleeps although every source ended")
              ELSE Flag(~st.over /\ All(st) /\ (~st.join \/ st.errs # {} \/ st.done > Len(st.made)), "exhausting never ended")
                   \cup Flag(st.over /\ st.queue /\ Len(st.got) < Len(st.made) /\ e.drained, "an item never reached the queue")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "begin" -> [st EXCEPT !.began = TRUE]
    [] e.op = "made" -> [st EXCEPT !.made = Append(@, e.x)]
    [] e.op = "eos" -> [st EXCEPT !.ended = @ \cup {e.i}]
    [] e.op = "sfail" -> [st EXCEPT !.ended = @ \cup {e.i}, !.errs = @ \cup {e.o}]
    [] e.op = "want" -> [st EXCEPT !.want = TRUE]
    [] e.op \in {"item", "out"} -> [st EXCEPT !.got = Append(@, e.x), !.want = FALSE]
    [] e.op = "task" -> [st EXCEPT !.done = @ + 1]
    [] e.op \in {"endit", "raise", "fin"} -> [st EXCEPT !.over = TRUE, !.want = FALSE]
    [] e.op = "stop" -> [st EXCEPT !.stopped = TRUE]
    [] OTHER -> st
============================================================================
