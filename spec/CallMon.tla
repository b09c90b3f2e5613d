------------------------------ MODULE CallMon -----------------------------
(* C20: calls of one decorated function.                                    *)
(* cfg: def ("sync"/"async": how it was defined), deflt ("sync"/"async"/    *)
(* "none"), w (workers of its executor).                                    *)
(*  deco what o         decorating something: o = "ok" or the exception     *)
(*  call k flag ctx args   flag: "none","sync+","sync-","asyn+","asyn-",    *)
(*                      "both"; ctx: "loop" = a loop runs in the thread     *)
(*  body k args th      an execution began; th: "caller" / "other" thread   *)
(*  end k o             it ended with o ("=..." value or "!..." exception)  *)
(*  ret k kind o        the call returned: kind "value"/"awaitable"/"raise" *)
(*  await k / res k o   the awaitable was awaited / gave o                  *)
(*  quiet                                                                   *)
EXTENDS Lib
Init0(cfg) == [def |-> cfg.def, deflt |-> cfg.deflt, w |-> cfg.w, call |-> Empty, began |-> Empty, out |-> Empty, aw |-> {}, got |-> {}, cur |-> 0]
Flagged(f) == f \in {"sync+", "sync-", "asyn+", "asyn-"}
Mode(st, f) == IF f = "both" THEN "refuse"
               ELSE IF Flagged(f) THEN (IF f \in {"sync+", "asyn-"} THEN "sync" ELSE "async")
               ELSE IF st.deflt # "none" THEN st.deflt ELSE st.def
Clash(st, c) == Mode(st, c.flag) = "sync" /\ st.def = "async" /\ c.ctx = "loop"
Good == {"def", "async def", "lambda", "bound", "callable", "kwonly"}
Flags == {"def sync", "def asynchronous", "async def sync", "async def asynchronous"}
Running(st) == {k \in DOMAIN st.began : k \notin DOMAIN st.out}
Why(st, e) ==
  CASE e.op = "deco" ->
         IF e.what \in Good THEN Flag(e.o # "ok", "a plain function was refused")
         ELSE IF e.what \in Flags THEN Flag(e.o # "E:RuntimeError", "a function with a parameter named like a flag was not refused")
         ELSE IF e.what = "not callable" THEN Flag(e.o # "E:TypeError", "decorated something that is not callable")
         ELSE Flag(e.o # "E:ValueError", "a generator function or an invalid default was not refused")
    [] e.op = "call" -> Flag(e.k \in DOMAIN st.call, "harness: call id used twice")
    [] e.op = "body" ->
         IF e.k \notin DOMAIN st.call THEN {"ran with arguments no call gave"}
         ELSE LET c == st.call[e.k] IN
         Flag(e.k \in DOMAIN st.began, "ran twice for one call") \cup
         Flag(e.args # c.args, "ran with other arguments than those given") \cup
         Flag(Mode(st, c.flag) = "refuse", "ran in spite of contradictory flags") \cup
         Flag(Clash(st, c), "a sync call inside the running loop ran") \cup
         Flag(Mode(st, c.flag) = "sync" /\ st.cur # e.k, "a sync call ran outside of the call") \cup
         Flag(Mode(st, c.flag) = "async" /\ e.k \notin st.aw, "an async call ran before it was awaited") \cup
         Flag(Mode(st, c.flag) = "sync" /\ e.th # "caller", "a sync call ran in another thread") \cup
         Flag(Mode(st, c.flag) = "async" /\ (e.th = "caller") # (st.def = "async"), "an async call ran in the wrong thread") \cup
         Flag(Mode(st, c.flag) = "async" /\ st.def = "sync" /\ Cardinality(Running(st)) >= st.w, "more executions than the executor has workers")
    [] e.op = "end" -> Flag(e.k \notin Running(st), "harness: ended what does not run")
    [] e.op = "ret" ->
         LET c == st.call[e.k]  m == Mode(st, c.flag) IN
         IF m = "refuse" THEN Flag(e.kind # "raise" \/ e.o # "!E:TooManyFlags", "contradictory flags were not refused")
         ELSE IF Clash(st, c) THEN Flag(e.kind # "raise" \/ e.o # "!E:SyncModeInAsyncContextError", "a sync call inside the running loop did not raise SyncModeInAsyncContextError")
         ELSE IF m = "async" THEN Flag(e.kind # "awaitable", "an async call did not return an awaitable")
         ELSE IF e.k \notin DOMAIN st.out THEN {"a sync call returned without having run: " \o e.o}
         ELSE Flag(e.kind = "awaitable", "a sync call returned an awaitable") \cup
              Flag(e.kind # "awaitable" /\ e.o # st.out[e.k], "a sync call did not deliver the function's outcome")
    [] e.op = "await" -> Flag(e.k \in st.aw, "harness: awaited twice")
    [] e.op = "res" ->
         Flag(e.k \in st.got \/ e.k \notin st.aw, "harness: result twice") \cup
         (IF e.k \notin DOMAIN st.out THEN {"an awaited call answered without having run: " \o e.o}
          ELSE Flag(e.o # st.out[e.k], "an awaited call did not deliver the function's outcome"))
    [] e.op = "quiet" ->
         Flag(\E k \in st.aw : k \in DOMAIN st.out /\ k \notin st.got, "a finished call never answers") \cup
         Flag((\E k \in st.aw : k \notin DOMAIN st.began) /\ (st.def = "async" \/ Cardinality(Running(st)) < st.w), "an awaited call never runs")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "call" -> [st EXCEPT !.call = Put(@, e.k, [flag |-> e.flag, ctx |-> e.ctx, args |-> e.args]), !.cur = e.k]
    [] e.op = "body" -> [st EXCEPT !.began = Put(@, e.k, TRUE)]
    [] e.op = "end" -> [st EXCEPT !.out = Put(@, e.k, e.o)]
    [] e.op = "ret" -> [st EXCEPT !.cur = 0]
    [] e.op = "await" -> [st EXCEPT !.aw = @ \cup {e.k}]
    [] e.op = "res" -> [st EXCEPT !.got = @ \cup {e.k}]
    [] OTHER -> st
============================================================================
