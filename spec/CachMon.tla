------------------------------ MODULE CachMon -----------------------------
(* C22: cached properties.  A property is x = <<instance, name>>.           *)
(*  acc k x path      obj.prop ("direct": a cached value is what it gives)  *)
(*                    or its hidden counterpart was evaluated               *)
(*  await k           its awaitable is awaited: the request                 *)
(*  body x n / end n x o asked   load number n; asked: its outcome was due  *)
(*  cancel k; res k o (o: "=value", "!exception", "!cancelled")             *)
(*  set x v o fs / del x o fd    o = "ok" or what was raised; fs/fd: number *)
(*                    of calls of the user's setter/deleter                 *)
(*  sync x o          the outcome of a synchronous access in a thread       *)
(*  sacc x            that access begins                                    *)
(*  quiet             nothing can move without the driver                   *)
EXTENDS Lib
Init0(cfg) == [own |-> cfg.setter, val |-> Empty, cur |-> Empty, gens |-> 0, gx |-> Empty, asked |-> Empty, load |-> Empty, ended |-> {},
               x |-> Empty, ok |-> Empty, g |-> Empty, snap |-> {}, aw |-> {}, cut |-> {}, res |-> {}]
Has(st, x) == x \in DOMAIN st.val
Cur(st, x) == GetOr(st.cur, x, 0)
Asked(st, x) == GetOr(st.asked, x, <<>>)
Open(st, x) == {k \in DOMAIN st.x : st.x[k] = x /\ k \notin st.res}
\* the request k of x starts to wait: it joins the load in flight or asks for one
Join(st, k, x) ==
  IF k \in st.snap THEN [st EXCEPT !.g = Put(@, k, 0)]
  ELSE IF Has(st, x) THEN [st EXCEPT !.ok = Put(@, k, {st.val[x].o}), !.g = Put(@, k, 0)]
  ELSE IF Cur(st, x) # 0 THEN [st EXCEPT !.g = Put(@, k, Cur(st, x)), !.ok = Put(@, k, {})]
  ELSE LET n == st.gens + 1
       IN [st EXCEPT !.gens = n, !.gx = Put(@, n, x), !.cur = Put(@, x, n), !.asked = Put(@, x, Append(Asked(st, x), n)), !.g = Put(@, k, n), !.ok = Put(@, k, {})]
Why(st, e) ==
  CASE e.op \in {"acc", "await", "cancel", "sacc"} -> {}
    [] e.op = "body" -> Flag(Asked(st, e.x) = <<>>,
                             IF Has(st, e.x) THEN "computed again although the value is cached" ELSE "computed more than once for the same requests")
    [] e.op = "end" -> Flag(~e.asked, "the computation was cancelled though only requests were")
    [] e.op = "res" ->
         LET c == e.k \in st.cut IN
         IF e.o = "!cancelled" /\ c THEN {}
         ELSE IF e.o \in st.ok[e.k] THEN {}
         ELSE {IF e.o = "!cancelled" THEN "a request was cancelled though nobody cancelled it" ELSE "a request got another outcome than that of the value it asked for"}
    [] e.op = "sync" -> Flag(e.o \notin st.ok[0], "a synchronous request got another outcome than that of the value it asked for")
    [] e.op = "set" -> Flag(st.own /\ e.fs # 1, "the setter was not called exactly once") \cup Flag(e.o # e.want, "setting did not behave as its setter")
    [] e.op = "del" -> IF Has(st, e.x) /\ ~st.val[e.x].soft THEN Flag(e.o # "ok", "a cached value could not be deleted") \cup Flag(st.own /\ e.fd # 1, "the deleter was not called exactly once")
                       ELSE IF Has(st, e.x) THEN Flag(e.o \notin {"ok", "E:KeyError"}, "deleting raised something else than KeyError")
                       ELSE Flag(e.o # "E:KeyError", "deleting a value that is not cached did not raise KeyError")
    [] e.op = "quiet" ->
         LET W == {k \in st.aw : k \notin st.res} IN
         Flag(\E k \in W : k \in st.cut, "a cancelled request never ends") \cup
         Flag(\E k \in W : (st.g[k] = 0 \/ st.g[k] \in st.ended), "a request never answers although its value is there") \cup
         Flag(\E x \in DOMAIN st.asked : st.asked[x] # <<>>, "a requested value is not computed")
    [] OTHER -> {"unexpected event " \o e.op}
\* everybody who waits for a load may see the value that was set meanwhile instead
Add(st, x, o) == [k \in DOMAIN st.ok |-> IF k \in Open(st, x) /\ GetOr(st.g, k, 0) # 0 THEN st.ok[k] \cup {o} ELSE st.ok[k]]
After(st, e) ==
  CASE e.op = "acc" -> [st EXCEPT !.x = Put(@, e.k, e.x), !.ok = Put(@, e.k, IF Has(st, e.x) THEN {st.val[e.x].o} ELSE {}),
                               !.snap = IF e.path = "direct" /\ Has(st, e.x) /\ ~st.val[e.x].soft THEN @ \cup {e.k} ELSE @]
    [] e.op = "await" -> Join([st EXCEPT !.aw = @ \cup {e.k}], e.k, st.x[e.k])
    [] e.op = "sacc" -> Join([st EXCEPT !.ok = Put(@, 0, {}), !.x = Put(@, 0, e.x), !.res = @ \ {0}], 0, e.x)
    [] e.op = "body" ->
         LET q == Asked(st, e.x) IN
         [st EXCEPT !.load = Put(@, e.n, Head(q)), !.asked = Put(@, e.x, Tail(q))]
    [] e.op = "end" ->
         LET g == st.load[e.n]
             b == [st EXCEPT !.load = Del(@, e.n), !.ended = @ \cup {g},
                             !.ok = [k \in DOMAIN @ |-> IF k \in Open(st, e.x) /\ GetOr(st.g, k, 0) = g THEN @[k] \cup {e.o} ELSE @[k]]]
         IN IF Cur(st, e.x) = g THEN [b EXCEPT !.cur = Del(@, e.x), !.val = IF e.good THEN Put(@, e.x, [o |-> e.o, soft |-> TRUE]) ELSE @] ELSE b
    [] e.op = "cancel" -> [st EXCEPT !.cut = @ \cup {e.k}]
    [] e.op = "res" -> LET x == st.x[e.k] IN
                       [st EXCEPT !.res = @ \cup {e.k}, !.val = IF Has(st, x) /\ @[x].o = e.o THEN Put(@, x, [o |-> e.o, soft |-> FALSE]) ELSE @]
    [] e.op = "sync" -> LET x == st.x[0] IN
                        [st EXCEPT !.res = @ \cup {0}, !.val = IF Has(st, x) /\ @[x].o = e.o THEN Put(@, x, [o |-> e.o, soft |-> FALSE]) ELSE @]
    [] e.op = "set" -> IF e.o # "ok" THEN st
                       ELSE [st EXCEPT !.val = Put(@, e.x, [o |-> e.v, soft |-> FALSE]), !.cur = IF e.x \in DOMAIN @ THEN Del(@, e.x) ELSE @, !.ok = Add(st, e.x, e.v)]
    [] e.op = "del" -> IF e.o # "ok" THEN st ELSE [st EXCEPT !.val = IF e.x \in DOMAIN @ THEN Del(@, e.x) ELSE @]
    [] OTHER -> st
============================================================================
