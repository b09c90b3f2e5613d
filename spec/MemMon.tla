------------------------------- MODULE MemMon -----------------------------
(* C21: members of ASyncBase instances.                                     *)
(* cfg: sync (the class's mode), doc (TRUE: also demand what the README     *)
(* says about undecorated sync methods of async instances).                 *)
(*  new i cls f       instance made; f: "dflt" or its own flag              *)
(*  gone i            the last reference to it was dropped                  *)
(*  call k i m path flag ctx args    member m; path "direct"/"hidden"       *)
(*  body i m k lvl args / end i m k lvl o     an execution, k = 0 for       *)
(*                    properties, lvl "sub" (overriding) or "base"          *)
(*  inner i m k o     what the overriding body got from super()             *)
(*  ret k kind o; await k; res k o; quiet                                   *)
(*  adv late          time passed; late: other timers which did not fire    *)
EXTENDS Lib
Meths == {"am", "sm", "ams", "ama", "sms", "sma"}
Props == {"ap", "sp", "aps", "apa", "sps", "spa"}
Caches == {"ac", "sc", "acs", "aca", "scs", "sca"}
Members == Meths \cup Props \cup Caches
AsyncDef == {"am", "ams", "ama", "ap", "aps", "apa", "ac", "acs", "aca"}
SyncD == {"ams", "sms", "aps", "sps", "acs", "scs"}
AsyncD == {"ama", "sma", "apa", "spa", "aca", "sca"}
Over == {"am", "sm", "ap", "sp", "ac", "sc"}     \* overridden in the subclass
Flagged(f) == f \in {"sync+", "sync-", "asyn+", "asyn-"}
Init0(cfg) == [sync |-> cfg.sync, doc |-> cfg.doc, inst |-> Empty, call |-> Empty, dem |-> Empty, ran |-> Empty, pool |-> Empty, val |-> Empty, run |-> {}, aw |-> {}, got |-> {}, cur |-> 0]
InstSync(st, i) == IF st.inst[i].f = "dflt" THEN st.sync ELSE st.inst[i].f = "sync"
Top(st, i, m) == IF st.inst[i].cls = "sub" /\ m \in Over THEN "sub" ELSE "base"
Mode(st, c) == IF c.flag = "both" THEN "refuse"
               ELSE IF Flagged(c.flag) THEN (IF c.flag \in {"sync+", "asyn-"} THEN "sync" ELSE "async")
               ELSE IF c.path = "hidden" THEN "async"
               ELSE IF c.m \in SyncD THEN "sync" ELSE IF c.m \in AsyncD THEN "async"
               ELSE IF InstSync(st, c.i) THEN "sync" ELSE "async"
Clash(st, c) == Mode(st, c) = "sync" /\ c.ctx = "loop" /\ ~(c.m \in Meths \ AsyncDef)
\* a sync method called without any flag on an async instance: may run at once
Plain(st, c) == c.m \in {"sm"} /\ c.flag = "none" /\ Mode(st, c) = "async"
Either(st, c) == Plain(st, c) /\ ~st.doc
Kk(m, k) == IF m \in Meths THEN k ELSE 0
Key(c, lvl) == <<c.i, c.m, Kk(c.m, c.k), lvl>>
TopKey(st, c) == Key(c, Top(st, c.i, c.m))
Add(f, k, n) == Put(f, k, GetOr(f, k, 0) + n)
Outs(st, x) == GetOr(st.pool, x, <<>>)
\* may an access of x answer o?
Answer(st, x, m, o, what) ==
  IF m \in Caches THEN Flag(o \notin Range(Outs(st, x)), what)
  ELSE Flag(o \notin Range(Outs(st, x)), what)
Claim(st, x, m, o) == IF m \in Caches THEN st.pool ELSE Put(st.pool, x, DropFirst(Outs(st, x), o))
Why(st, e) ==
  CASE e.op = "new" -> Flag(e.i \in DOMAIN st.inst, "harness: instance twice")
    [] e.op = "gone" -> {}
    [] e.op = "call" -> Flag(e.k \in DOMAIN st.call \/ e.i \notin DOMAIN st.inst, "harness: bad call")
    [] e.op = "body" ->
         LET x == <<e.i, e.m, e.k, e.lvl>> IN
         IF e.i \notin DOMAIN st.inst THEN {"ran for an instance that was never made"}
         ELSE IF GetOr(st.dem, x, 0) = 0 THEN {"ran though nobody asked this member of this instance for it"}
         ELSE Flag(e.m \in Meths /\ e.lvl = Top(st, e.i, e.m) /\ e.args # st.call[e.k].args, "ran with other arguments than those given") \cup
              Flag(e.m \notin Caches /\ GetOr(st.ran, x, 0) >= st.dem[x], "ran twice for one call") \cup
              Flag(e.m \in Caches /\ x \in DOMAIN st.val, "a cached property was computed again") \cup
              Flag(e.m \in Caches /\ x \in st.run, "a cached property is computed twice at once")
    [] e.op = "end" -> {}
    [] e.op = "inner" -> Answer(st, <<e.i, e.m, e.k, "base">>, e.m, e.o, "super() did not give the overridden member's outcome")
    [] e.op = "ret" ->
         LET c == st.call[e.k]  md == Mode(st, c)  x == TopKey(st, c) IN
         IF md = "refuse" THEN Flag(e.kind # "raise" \/ e.o # "!E:TooManyFlags", "contradictory flags were not refused")
         ELSE IF Clash(st, c) THEN Flag(e.kind # "raise" \/ e.o # "!E:SyncModeInAsyncContextError", "a sync access inside the running loop did not raise SyncModeInAsyncContextError")
         ELSE IF md = "async" /\ e.kind = "awaitable" THEN {}
         ELSE IF md = "async" /\ ~Either(st, c) THEN {"an async access did not return an awaitable"}
         ELSE IF e.kind = "awaitable" THEN {"a sync access returned an awaitable"}
         ELSE Answer(st, x, c.m, e.o, "a sync access did not deliver the member's outcome")
    [] e.op = "await" -> Flag(e.k \in st.aw, "harness: awaited twice")
    [] e.op = "res" -> LET c == st.call[e.k] IN Answer(st, TopKey(st, c), c.m, e.o, "an awaited access did not deliver the member's outcome")
    [] e.op = "quiet" -> Flag(st.aw \ st.got # {}, "an awaited access never answers")
    [] e.op = "adv" -> Flag(e.late # 0, "another timer of the event loop did not fire in time")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "new" -> [st EXCEPT !.inst = Put(@, e.i, [cls |-> e.cls, f |-> e.f])]
    [] e.op = "call" -> LET c == [k |-> e.k, i |-> e.i, m |-> e.m, path |-> e.path, flag |-> e.flag, ctx |-> e.ctx, args |-> e.args]
                            b == [st EXCEPT !.call = Put(@, e.k, c)]
                        IN IF (Mode(b, c) = "sync" /\ ~Clash(b, c)) \/ Plain(b, c) THEN [b EXCEPT !.dem = Add(@, TopKey(b, c), 1)] ELSE b
    [] e.op = "body" -> LET x == <<e.i, e.m, e.k, e.lvl>>
                            b == [st EXCEPT !.ran = Add(@, x, 1), !.run = @ \cup {x}]
                        IN IF e.lvl = "sub" THEN [b EXCEPT !.dem = Add(@, <<e.i, e.m, e.k, "base">>, 1)] ELSE b
    [] e.op = "end" -> LET x == <<e.i, e.m, e.k, e.lvl>>
                       IN [st EXCEPT !.run = @ \ {x}, !.pool = Put(@, x, Append(Outs(st, x), e.o)),
                                     !.val = IF e.m \in Caches /\ e.good THEN Put(@, x, e.o) ELSE @]
    [] e.op = "inner" -> [st EXCEPT !.pool = Claim(st, <<e.i, e.m, e.k, "base">>, e.m, e.o)]
    [] e.op = "ret" -> LET c == st.call[e.k] IN
                       IF e.kind = "awaitable" THEN (IF Either(st, c) THEN [st EXCEPT !.dem = Add(@, TopKey(st, c), -1)] ELSE st)
                       ELSE IF Mode(st, c) = "refuse" \/ Clash(st, c) THEN st
                       ELSE [st EXCEPT !.pool = Claim(st, TopKey(st, c), c.m, e.o)]
    [] e.op = "await" -> [st EXCEPT !.aw = @ \cup {e.k}, !.dem = Add(@, TopKey(st, st.call[e.k]), 1)]
    [] e.op = "res" -> LET c == st.call[e.k] IN [st EXCEPT !.got = @ \cup {e.k}, !.pool = Claim(st, TopKey(st, c), c.m, e.o)]
    [] OTHER -> st
============================================================================
