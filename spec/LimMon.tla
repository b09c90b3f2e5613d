------------------------------- MODULE LimMon -----------------------------
(* C25: the semaphore and rate-limit modifiers.                             *)
(* cfg: sem (permits, 0 = none), rate (executions per minute, 0 = none),    *)
(*      shared: the limits are those of all the groups together             *)
(*      cache: calls of equal arguments share an execution                  *)
(*  call k x i at   call k of group i asks for execution x                  *)
(*  start x at / end x o at   an execution                                  *)
(*  res k o; cancel k; quiet at            times are milliseconds           *)
(* A bucket [lv, t] has level lv at time t and leaks one millisecond per    *)
(* millisecond; a start adds 60000 / rate, at most to 60000.                *)
EXTENDS Lib
Init0(cfg) == [sem |-> cfg.sem, rate |-> cfg.rate, shared |-> cfg.shared, cache |-> cfg.cache, x |-> Empty, grp |-> Empty, since |-> Empty, want |-> {}, run |-> {},
               out |-> Empty, res |-> {}, cut |-> {}, lv |-> Empty, all |-> [lv |-> 0, t |-> 0], last |-> 0]
P(st) == 60000 \div st.rate
Level(b, at) == Max2(0, b.lv - (at - b.t))
Bucket(st, g) == IF st.shared THEN st.all ELSE GetOr(st.lv, g, [lv |-> 0, t |-> 0])
InFlight(st, g) == IF st.shared THEN Cardinality(st.run) ELSE Cardinality({x \in st.run : st.grp[x] = g})
Callers(st, x) == {k \in DOMAIN st.x : st.x[k] = x /\ k \notin st.res}
\* executions that should take place
Due(st) == {x \in st.want : st.cache \/ (\E k \in Callers(st, x) : k \notin st.cut)}
Free(st) == st.sem = 0 \/ Cardinality(st.run) < st.sem
Late(st, at) ==
  LET D == Due(st) IN
  IF D = {} \/ ~Free(st) THEN FALSE
  ELSE IF st.rate = 0 THEN TRUE
  ELSE LET over == st.all.lv + P(st) - 60000
           room == IF over <= 0 THEN st.all.t ELSE st.all.t + over       \* there is capacity since then
           calm == Max2(Max2(room, st.last), MaxOf({st.since[x] : x \in D}))
       IN at > calm + 2 * P(st) + 5 \/ ((\A x \in D : st.since[x] = at) /\ (over <= 0 \/ room + 2 <= at))
Why(st, e) ==
  CASE e.op \in {"call", "cancel"} -> {}
    [] e.op = "start" ->
         IF e.x \notin st.want THEN {"an execution nobody asked for, or the same one again"}
         ELSE Flag(st.sem > 0 /\ InFlight(st, st.grp[e.x]) >= st.sem, "more executions in flight than the semaphore allows") \cup
              Flag(st.rate > 0 /\ Level(Bucket(st, st.grp[e.x]), e.at) + (IF st.rate > 0 THEN P(st) ELSE 0) > 60002, "executions start more often than the rate allows")
    [] e.op = "end" -> Flag(e.x \notin st.run, "an execution ended that was not in flight") \cup
                       Flag(e.o = "!cancelled" /\ (st.cache \/ (\E k \in Callers(st, e.x) : k \notin st.cut)), "an execution others wait for was cancelled")
    [] e.op = "res" -> IF e.o = "!cancelled" /\ e.k \in st.cut THEN {}
                       ELSE Flag(GetOr(st.out, st.x[e.k], "none") # e.o, "a call got another outcome than its execution's")
    [] e.op = "quiet" ->
         LET W == {k \in DOMAIN st.x : k \notin st.res} IN
         Flag(\E k \in W : k \in st.cut, "a cancelled call never ends") \cup
         Flag(\E k \in W : st.x[k] \in DOMAIN st.out, "a call never answers although its execution ended") \cup
         Flag(Late(st, e.at), "a call waits although neither the semaphore nor the rate forbids it")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "call" ->
         LET new == e.x \notin DOMAIN st.grp IN
         [st EXCEPT !.x = Put(@, e.k, e.x), !.grp = Put(@, e.x, e.i), !.since = IF new THEN Put(@, e.x, e.at) ELSE @, !.want = IF new THEN @ \cup {e.x} ELSE @]
    [] e.op = "start" ->
         IF e.x \notin DOMAIN st.grp THEN st
         ELSE LET g == st.grp[e.x]
                  add(b) == [lv |-> Level(b, e.at) + P(st), t |-> e.at]
                  b == [st EXCEPT !.want = @ \ {e.x}, !.run = @ \cup {e.x}, !.last = e.at]
              IN IF st.rate = 0 THEN b ELSE [b EXCEPT !.all = add(@), !.lv = Put(@, g, add(GetOr(@, g, [lv |-> 0, t |-> 0])))]
    [] e.op = "end" -> [st EXCEPT !.run = @ \ {e.x}, !.out = Put(@, e.x, e.o), !.last = e.at]
    [] e.op = "cancel" -> [st EXCEPT !.cut = @ \cup {e.k}]
    [] e.op = "res" -> [st EXCEPT !.res = @ \cup {e.k}]
    [] OTHER -> st
============================================================================
