------------------------------ MODULE ExecMon -----------------------------
(* C26: executors.  cfg: n (max_workers, 0 = sync mode).                    *)
(*  sub k a         call k is about to be submitted with arguments a        *)
(*  subd k          submit() returned                                       *)
(*  start k a caller / end k o     the function runs (in the caller's       *)
(*                  thread or in another one)                               *)
(*  res k o; cancel k; quiet w (number of workers)                          *)
(*  down / downd o  shutdown(wait=True) begins / is over                    *)
EXTENDS Lib
Init0(cfg) == [n |-> cfg.n, a |-> Empty, want |-> {}, run |-> {}, out |-> Empty, res |-> {}, cut |-> {}, late |-> {}, down |-> "no"]
Live(st) == {k \in st.want : k \notin st.cut}
Why(st, e) ==
  CASE e.op \in {"sub", "cancel", "down"} -> {}
    [] e.op = "start" ->
         IF e.k \notin st.want THEN {"a function ran that was not submitted, twice, or after its refusal"}
         ELSE Flag(st.n > 0 /\ Cardinality(st.run) >= st.n, "more calls run at once than there are workers") \cup
              Flag(st.n = 0 /\ ~e.caller, "a call does not run inline in sync mode") \cup
              Flag(st.n > 0 /\ e.caller, "a call runs in the caller's thread") \cup
              Flag(st.a[e.k] # e.a, "a function ran with other arguments than those given")
    [] e.op = "subd" -> Flag(st.n = 0 /\ e.k \notin DOMAIN st.out, "a call does not run inline in sync mode")
    [] e.op = "end" -> Flag(e.k \notin st.run, "a call ended twice")
    [] e.op = "res" -> IF e.o = "!cancelled" /\ e.k \in st.cut THEN {}
                       ELSE IF e.k \in st.late THEN Flag(e.o # "!E:RuntimeError", "a call submitted after the shutdown was not refused")
                       ELSE Flag(GetOr(st.out, e.k, "none") # e.o, "a call got another outcome than its function's")
    [] e.op = "downd" -> Flag(e.o # "=None", "shutdown failed") \cup Flag(st.run # {} \/ Live(st) # {}, "shutdown was over before the submitted calls were")
    [] e.op = "quiet" ->
         Flag(\E k \in DOMAIN st.a : k \in st.cut /\ k \notin st.res, "a cancelled call never ends") \cup
         Flag(\E k \in DOMAIN st.out : k \notin st.res, "a call never answers although its function returned") \cup
         Flag(Live(st) \ st.late # {} /\ Cardinality(st.run) < Max2(st.n, 1), "a submitted call is not run although a worker could be had") \cup
         Flag(st.late \ st.res # {}, "a call submitted after the shutdown gets no answer") \cup
         Flag(st.n > 0 /\ e.w > st.n, "there are more workers than allowed") \cup
         Flag(st.down = "asked" /\ st.run = {} /\ Live(st) \ st.late = {}, "shutdown is never over")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "sub" -> [st EXCEPT !.a = Put(@, e.k, e.a), !.want = IF st.down = "no" THEN @ \cup {e.k} ELSE @, !.late = IF st.down = "no" THEN @ ELSE @ \cup {e.k}]
    [] e.op = "start" -> [st EXCEPT !.want = @ \ {e.k}, !.run = @ \cup {e.k}]
    [] e.op = "end" -> [st EXCEPT !.run = @ \ {e.k}, !.out = Put(@, e.k, e.o)]
    [] e.op = "cancel" -> [st EXCEPT !.cut = @ \cup {e.k}]
    [] e.op = "res" -> [st EXCEPT !.res = @ \cup {e.k}]
    [] e.op = "down" -> [st EXCEPT !.down = "asked"]
    [] e.op = "downd" -> [st EXCEPT !.down = "over"]
    [] OTHER -> st
============================================================================
