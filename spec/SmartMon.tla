------------------------------- MODULE SmartMon ---------------------------
(* C09: SmartProcessingQueue.  Calls are numbered; the number of the call   *)
(* that created a future names that future and its job.                     *)
(*  sub n k r      call n with key k returned the future r (0: exception x) *)
(*  aw t n / awend t o    task t awaits future n / got outcome o            *)
(*  tcancel t / fcancel n                                                   *)
(*  drop n / dead n       last reference of the caller released / the       *)
(*                        future is known to be gone                        *)
(*  start n / end n o / fut n o                                             *)
(*  jstart j / jdone j / close / quiet                                      *)
EXTENDS Lib
Init0(cfg) == [nw |-> cfg.nw, closed |-> FALSE, key |-> Empty, pend |-> {}, run |-> {}, out |-> Empty, fc |-> {}, drop |-> {}, dead |-> {},
               tell |-> {}, aw |-> Empty, doomed |-> {}, joins |-> {}, joined |-> {}]
\* a task that was told to end might or might not be counted any more
Sure(st, n) == Cardinality({t \in DOMAIN st.aw : st.aw[t] = n /\ t \notin st.doomed})
Waiters(st, n) == Cardinality({t \in DOMAIN st.aw : st.aw[t] = n})
Shared(st, k) == {n \in (st.pend \cup st.run) \ (st.fc \cup st.dead) : st.key[n] = k}
Live(st) == (st.pend \ (st.fc \cup st.dead)) \cup st.run
Why(st, e) ==
  CASE e.op = "sub" ->
         IF st.closed THEN Flag(e.r # 0 \/ e.x # "RuntimeError", "a closed queue accepted a job")
         ELSE IF e.r = 0 THEN {"a submission raised " \o e.x}
         ELSE Flag(e.r # e.n /\ e.r \notin Shared(st, e.k), "a submission got the future of something else, or of a job that is over")
              \cup Flag(e.r = e.n /\ Shared(st, e.k) \ st.drop # {}, "an equal job is pending or running but its future was not shared")
    [] e.op \in {"aw", "tcancel", "fcancel", "drop", "dead", "close", "jstart"} -> {}
    [] e.op = "start" ->
         (IF e.n \notin st.pend THEN {"a job was started that was not waiting (twice, or never submitted)"}
          ELSE Flag(e.n \in st.dead, "a job was run although its future had been dropped by everyone")
               \cup Flag(\E m \in st.pend \ (st.fc \cup st.dead \cup st.drop) : Sure(st, m) > (IF e.n \in st.fc THEN 0 ELSE Waiters(st, e.n)),
                         "a job was started before one with more waiters"))
         \cup Flag(Cardinality(st.run) >= st.nw, "more jobs run at once than there are workers")
    [] e.op = "end" -> Flag(e.n \notin st.run, "harness: end of a job that does not run")
    [] e.op = "fut" -> IF e.n \in st.fc THEN Flag(e.o # "cancelled", "a cancelled future has a result")
                       ELSE IF e.n \notin DOMAIN st.out THEN {"a future was completed before its job"}
                       ELSE Flag(e.o # st.out[e.n], "a future has the outcome of something else")
    [] e.op = "awend" ->
         LET n == st.aw[e.t]
         IN Flag(~(e.o = "cancelled" /\ (e.t \in st.doomed \/ n \in st.fc)) /\ ~(n \in DOMAIN st.out /\ n \notin st.fc /\ st.out[n] = e.o),
                 "a waiter got something else than the outcome of its job")
    [] e.op = "jdone" -> Flag(e.j \notin st.joined, "join() completed although jobs were unfinished")
    [] e.op = "quiet" ->
         Flag(st.pend \ (st.fc \cup st.dead) # {} /\ Cardinality(st.run) < st.nw, "a worker is idle although jobs wait")
         \cup Flag(st.tell \ (st.drop \cup st.dead) # {}, "a finished job's future never got its outcome")
         \cup Flag(\E t \in DOMAIN st.aw : st.aw[t] \in DOMAIN st.out \/ st.aw[t] \in st.fc \/ t \in st.doomed, "a waiter was never released")
         \cup Flag(st.joins # {} /\ Live(st) = {}, "join() did not complete although all jobs finished")
    [] e.op = "kill" -> {"a running job was cancelled"}
    [] OTHER -> {"unexpected event " \o e.op}
Join(st) == IF Live(st) = {} THEN [st EXCEPT !.joined = @ \cup st.joins] ELSE st
After(st, e) ==
  CASE e.op = "sub" -> IF e.r = 0 THEN st
                       ELSE IF e.r = e.n THEN [st EXCEPT !.key = Put(@, e.n, e.k), !.pend = @ \cup {e.n}]
                       ELSE [st EXCEPT !.drop = @ \ {e.r}]
    [] e.op = "aw" -> [st EXCEPT !.aw = Put(@, e.t, e.n)]
    [] e.op = "awend" -> [st EXCEPT !.aw = Del(@, e.t)]
    [] e.op = "tcancel" -> [st EXCEPT !.doomed = @ \cup {e.t}]
    [] e.op = "fcancel" -> IF e.n \in DOMAIN st.out THEN st ELSE Join([st EXCEPT !.fc = @ \cup {e.n}])
    [] e.op = "drop" -> [st EXCEPT !.drop = @ \cup {e.n}]
    [] e.op = "dead" -> Join([st EXCEPT !.dead = @ \cup {e.n}])
    [] e.op = "start" -> [st EXCEPT !.pend = @ \ {e.n}, !.run = @ \cup {e.n}]
    [] e.op = "end" -> Join([st EXCEPT !.run = @ \ {e.n}, !.out = Put(@, e.n, e.o), !.tell = IF e.n \in st.fc THEN @ ELSE @ \cup {e.n}])
    [] e.op = "fut" -> [st EXCEPT !.tell = @ \ {e.n}]
    [] e.op = "close" -> [st EXCEPT !.closed = TRUE]
    [] e.op = "jstart" -> Join([st EXCEPT !.joins = @ \cup {e.j}])
    [] e.op = "jdone" -> [st EXCEPT !.joins = @ \ {e.j}]
    [] OTHER -> st
============================================================================
