------------------------------- MODULE ProcMon ----------------------------
(* C07/C08: processing queues.  Order of submission = order of sub events.  *)
(*  sub j p a        a call with priority p and arguments a is made         *)
(*  got j r          it returned r: "fut" / "none" / name of the exception  *)
(*  start j a        the function began with the arguments a                *)
(*  end j o          the function ends with outcome o                       *)
(*  fut j o          the job's own future has outcome o                     *)
(*  fcancel j        the caller cancels the future                          *)
(*  jstart j / jdone j    join() ; close ; quiet                            *)
(*  vput x p / vset x p / vget x / vempty / vwait n    VariablePriorityQueue*)
EXTENDS Lib
Init0(cfg) == [nw |-> cfg.nw, futs |-> cfg.futs, closed |-> FALSE, args |-> Empty, pri |-> Empty, ord |-> Empty, wait |-> {}, run |-> {}, out |-> Empty,
               tell |-> {}, fc |-> {}, told |-> {}, open |-> 0, joins |-> {}, joined |-> {}, vq |-> Empty, vw |-> 0]
Better(st, a, b) == st.pri[a] < st.pri[b] \/ (st.pri[a] = st.pri[b] /\ st.ord[a] < st.ord[b])
Why(st, e) ==
  CASE e.op = "sub" -> {}
    [] e.op = "got" -> IF st.closed THEN Flag(e.r # "RuntimeError", "a closed queue accepted a job")
                       ELSE Flag(e.r # (IF st.futs THEN "fut" ELSE "none"), "a submission did not return what it should: " \o e.r)
    [] e.op = "start" ->
         (IF e.j \notin st.wait THEN {"a job was started that was not waiting (twice, or never submitted)"}
          ELSE Flag(st.args[e.j] # e.a, "a job was run with other arguments than its own")
               \cup Flag(\E k \in st.wait : Better(st, k, e.j), "jobs were started out of order"))
         \cup Flag(Cardinality(st.run) >= st.nw, "more jobs run at once than there are workers")
    [] e.op = "end" -> Flag(e.j \notin st.run, "harness: end of a job that does not run")
    [] e.op = "fut" -> IF e.j \in st.fc THEN Flag(e.o # "cancelled", "a cancelled future has a result")
                       ELSE IF e.j \notin DOMAIN st.out THEN {"a future was completed before its job"}
                       ELSE Flag(e.o # st.out[e.j], "a future has the outcome of something else")
                            \cup Flag(e.j \in st.told, "a future completed twice")
    [] e.op \in {"fcancel", "close", "jstart", "vput", "vset"} -> {}
    [] e.op = "kill" -> {"a running job was cancelled"}
    [] e.op = "jdone" -> Flag(e.j \notin st.joined, "join() completed although jobs were unfinished")
    [] e.op = "quiet" ->
         Flag(st.wait # {} /\ Cardinality(st.run) < st.nw, "a worker is idle although jobs wait")
         \cup Flag(st.tell # {}, "a finished job's future never got its outcome")
         \cup Flag(st.joins \cap st.joined # {}, "join() did not complete although all jobs finished")
         \cup Flag(st.vw > 0 /\ DOMAIN st.vq # {}, "a getter sleeps although items are there")
    [] e.op = "vget" -> IF e.x \notin DOMAIN st.vq THEN {"an item was returned twice or was never put"}
                        ELSE Flag(\E y \in DOMAIN st.vq : st.vq[y] < st.vq[e.x], "a get did not return the item with the best current priority")
    [] e.op = "vempty" -> Flag(DOMAIN st.vq # {}, "QueueEmpty although items are there")
    [] e.op = "vwait" -> {}
    [] OTHER -> {"unexpected event " \o e.op}
Accept(st, e) == ~st.closed /\ e.r \in {"fut", "none"}
After(st, e) ==
  CASE e.op = "sub" -> IF st.closed THEN st
                       ELSE [st EXCEPT !.args = Put(@, e.j, e.a), !.pri = Put(@, e.j, e.p), !.ord = Put(@, e.j, Cardinality(DOMAIN st.ord)), !.wait = @ \cup {e.j}, !.open = @ + 1]
    [] e.op = "got" -> st
    [] e.op = "start" -> [st EXCEPT !.wait = @ \ {e.j}, !.run = @ \cup {e.j}]
    [] e.op = "end" -> [st EXCEPT !.run = @ \ {e.j}, !.out = Put(@, e.j, e.o), !.open = @ - 1,
                                  !.tell = IF st.futs /\ e.j \notin st.fc THEN @ \cup {e.j} ELSE @,
                                  !.joined = IF st.open = 1 THEN @ \cup st.joins ELSE @]
    [] e.op = "fut" -> [st EXCEPT !.tell = @ \ {e.j}, !.told = @ \cup {e.j}]
    [] e.op = "fcancel" -> IF e.j \in st.told \/ e.j \in st.tell THEN st ELSE [st EXCEPT !.fc = @ \cup {e.j}]
    [] e.op = "close" -> [st EXCEPT !.closed = TRUE]
    [] e.op = "jstart" -> [st EXCEPT !.joins = @ \cup {e.j}, !.joined = IF st.open = 0 THEN @ \cup {e.j} ELSE @]
    [] e.op = "jdone" -> [st EXCEPT !.joins = @ \ {e.j}]
    [] e.op \in {"vput", "vset"} -> [st EXCEPT !.vq = Put(@, e.x, e.p)]
    [] e.op = "vget" -> [st EXCEPT !.vq = Del(@, e.x)]
    [] e.op = "vwait" -> [st EXCEPT !.vw = e.n]
    [] OTHER -> st
============================================================================
