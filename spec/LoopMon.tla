------------------------------- MODULE LoopMon ----------------------------
(* C28: one object used on several event loops, one after the other.        *)
(* cfg: kind = sem / fsem (permits), event / counter (flags), memo; n       *)
(*  new o           the object was made (o: ok or the failure)              *)
(*  acq w l / got w / rel w      a permit is asked for on loop l, held,     *)
(*                  given back (fsem: the body runs)                        *)
(*  wait w l v / set v / clear / look v b    event and counter              *)
(*  call w l / body b / end b o  memo: a cached function or property        *)
(*  res w o         the task w is over; cancel w; over l: loop l is about   *)
(*                  to end (its tasks get cancelled); quiet l               *)
EXTENDS Lib
Init0(cfg) == [c |-> cfg, on |-> Empty, held |-> {}, cut |-> {}, res |-> {}, val |-> cfg.n0, due |-> {}, v |-> Empty, run |-> Empty, fail |-> "", memo |-> ""]
Open(st) == {w \in DOMAIN st.on : w \notin st.res}
Wait(st) == {w \in Open(st) : w \notin st.cut /\ w \notin st.held}
On(st, l) == {w \in Wait(st) : st.on[w] = l}
Free(st) == st.c.n - Cardinality(st.held)
Permit(st) == st.c.kind \in {"sem", "fsem"}
Ready(st, v) == IF st.c.kind = "event" THEN st.val > 0 ELSE st.val >= v
Why(st, e) ==
  CASE e.op = "new" -> Flag(e.o # "ok", "the object cannot be made here")
    [] e.op \in {"acq", "wait", "call", "cancel", "over"} -> {}
    [] e.op = "got" -> Flag(Free(st) <= 0, "more permits are held than there are") \cup Flag(e.w \notin Wait(st), "a permit was given to one who does not wait")
    [] e.op = "rel" -> Flag(e.w \notin st.held, "a permit was given back twice")
    [] e.op \in {"set", "clear"} -> Flag(e.o # "ok", "an operation failed")
    [] e.op = "look" -> Flag(e.b # Ready(st, e.v), "the state is not kept")
    [] e.op = "body" -> Flag(st.memo # "", "a cached value is computed again") \cup Flag(DOMAIN st.run # {}, "two computations of one cached value at a time")
    [] e.op = "end" -> Flag(e.b \notin DOMAIN st.run, "a computation ended twice")
    [] e.op = "res" ->
         IF e.w \notin Open(st) THEN {"a task ended twice"}
         ELSE IF e.w \in st.cut /\ e.o = "!cancelled" THEN {}
         ELSE CASE Permit(st) -> Flag(e.o # "=ok" \/ e.w \notin st.held, "an operation failed or returned without a permit")
                [] st.c.kind = "memo" -> Flag(e.o # st.memo /\ e.o # st.fail, "a request got another outcome than the computation")
                [] OTHER -> Flag(e.o # "=True", "an operation failed") \cup Flag(e.w \notin st.due, "a wait is over although the condition was not met")
    [] e.op = "quiet" ->
         CASE Permit(st) -> Flag(On(st, e.l) # {} /\ Free(st) > Cardinality(Wait(st) \ On(st, e.l)), "a permit is free but is not given to one who waits")
           [] st.c.kind = "memo" -> Flag(On(st, e.l) # {} /\ DOMAIN st.run = {}, "a request is not answered although nothing is being computed")
           [] OTHER -> Flag(On(st, e.l) \cap st.due # {}, "a wait is not over although the condition was met")
         \cup Flag(\E w \in Open(st) : w \in st.cut /\ st.on[w] = e.l, "a cancelled task does not end")
    [] OTHER -> {"unexpected event " \o e.op}
Wake(st, v) == {w \in Wait(st) : st.c.kind = "event" \/ st.v[w] <= v}
After(st, e) ==
  CASE e.op = "acq" \/ e.op = "call" -> [st EXCEPT !.on = Put(@, e.w, e.l)]
    [] e.op = "wait" -> [st EXCEPT !.on = Put(@, e.w, e.l), !.v = Put(@, e.w, e.v), !.due = IF Ready(st, e.v) THEN @ \cup {e.w} ELSE @]
    [] e.op = "got" -> [st EXCEPT !.held = @ \cup {e.w}]
    [] e.op = "rel" -> [st EXCEPT !.held = @ \ {e.w}, !.res = @ \cup {e.w}]
    [] e.op = "set" -> [st EXCEPT !.val = Max2(@, e.v), !.due = @ \cup Wake(st, e.v)]
    [] e.op = "clear" -> [st EXCEPT !.val = 0]
    [] e.op = "body" -> [st EXCEPT !.run = Put(@, e.b, 1), !.fail = ""]
    [] e.op = "end" -> [st EXCEPT !.run = Del(@, e.b), !.memo = IF e.good THEN e.o ELSE @, !.fail = IF e.good THEN @ ELSE e.o]
    [] e.op = "cancel" -> [st EXCEPT !.cut = @ \cup {e.w}]
    [] e.op = "over" -> [st EXCEPT !.cut = @ \cup {w \in Open(st) : st.on[w] = e.l}]
    [] e.op = "res" -> [st EXCEPT !.res = @ \cup {e.w}]
    [] OTHER -> st
============================================================================
