------------------------------ MODULE MemoMon -----------------------------
(* C24: the memory cache.  cfg: max (entries kept, 0 = all), ttl (0 = none).*)
(*  call k key args   a call starts; key: equal for calls that may share    *)
(*  body n key args   execution n begins / end n o good                     *)
(*  res k o           "=value", "!exception", "!cancelled"                  *)
(*  cancel k; adv t; quiet                                                  *)
(* The cache is the sequence c of entries [key, g, st, o, exp], the least   *)
(* recently used first; st is "run", "ok" or "bad" (a failure that has not  *)
(* been dropped yet), g the number of the load.                             *)
EXTENDS Lib
Init0(cfg) == [max |-> cfg.max, ttl |-> cfg.ttl, c |-> <<>>, now |-> 0, gens |-> 0, asked |-> Empty, load |-> Empty, args |-> Empty, ended |-> {},
               key |-> Empty, ok |-> Empty, g |-> Empty, opt |-> {}, cut |-> {}, res |-> {}]
At(st, key) == {j \in DOMAIN st.c : st.c[j].key = key}
Ent(st, key) == st.c[CHOOSE j \in DOMAIN st.c : st.c[j].key = key]
DropKey(q, key) == SelectSeq(q, LAMBDA e : e.key # key)
Asked(st, key) == GetOr(st.asked, key, <<>>)
Cap(st, q) == IF st.max > 0 /\ Len(q) > st.max THEN Tail(q) ELSE q
\* a new load for key, asked for by k
Load(st, k, key, a) ==
  LET n == st.gens + 1
  IN [st EXCEPT !.gens = n, !.args = Put(@, n, a), !.g = Put(@, k, n), !.c = Cap(st, Append(DropKey(@, key), [key |-> key, g |-> n, st |-> "run", o |-> "", exp |-> 0])),
                !.asked = Put(@, key, Append(Asked(st, key), n))]
Call(st, e) ==
  LET b == [st EXCEPT !.key = Put(@, e.k, e.key), !.ok = Put(@, e.k, {})] IN
  IF At(st, e.key) = {} THEN Load(b, e.k, e.key, e.args)
  ELSE LET x == Ent(st, e.key)
           u == [b EXCEPT !.c = Append(DropKey(@, e.key), x)]     \* used just now
       IN CASE x.st = "run" -> [u EXCEPT !.g = Put(@, e.k, x.g)]
            [] x.st = "ok" -> [u EXCEPT !.g = Put(@, e.k, 0), !.ok = Put(@, e.k, {x.o})]
            [] OTHER -> [b EXCEPT !.g = Put(@, e.k, 0), !.ok = Put(@, e.k, {x.o}), !.opt = @ \cup {e.k}]
Opt(st, key) == {k \in st.opt : st.key[k] = key}
Why(st, e) ==
  CASE e.op \in {"call", "cancel", "adv"} -> {}
    [] e.op = "body" -> Flag(Asked(st, e.key) = <<>> /\ Opt(st, e.key) = {}, "computed again although the result is cached or being computed") \cup
                        Flag(Asked(st, e.key) # <<>> /\ st.args[Head(Asked(st, e.key))] # e.args, "computed for other arguments than those given")
    [] e.op = "end" -> Flag(~e.asked, "a computation others wait for was cancelled")
    [] e.op = "res" -> IF e.o = "!cancelled" /\ e.k \in st.cut THEN {}
                       ELSE IF e.o \in st.ok[e.k] THEN {}
                       ELSE {IF e.o = "!cancelled" THEN "a call was cancelled though nobody cancelled it" ELSE "a call got another outcome than that of its arguments' live computation"}
    [] e.op = "quiet" ->
         LET W == {k \in DOMAIN st.key : k \notin st.res} IN
         Flag(\E k \in W : k \in st.cut, "a cancelled call never ends") \cup
         Flag(\E k \in W : IF st.g[k] = 0 THEN TRUE ELSE st.g[k] \in st.ended, "a call never answers although its result is there") \cup
         Flag(\E x \in DOMAIN st.asked : st.asked[x] # <<>>, "nothing is computed for a call whose result is not (or no longer) cached")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "call" -> Call(st, e)
    [] e.op = "body" ->
         IF Asked(st, e.key) # <<>> THEN [st EXCEPT !.load = Put(@, e.n, Head(Asked(st, e.key))), !.asked = Put(@, e.key, Tail(Asked(st, e.key)))]
         ELSE IF Opt(st, e.key) = {} THEN st
         ELSE LET k == MinOf(Opt(st, e.key))
                  b == Load(st, k, e.key, e.args)
                  n == b.gens
              IN [b EXCEPT !.asked = Put(@, e.key, <<>>), !.load = Put(@, e.n, n), !.opt = @ \ Opt(st, e.key), !.g = [q \in DOMAIN b.g |-> IF q \in Opt(st, e.key) THEN n ELSE b.g[q]]]
    [] e.op = "end" ->
         LET g == GetOr(st.load, e.n, 0) IN
         IF g = 0 THEN st ELSE [st EXCEPT !.load = Del(@, e.n), !.ended = @ \cup {g},
                    !.ok = [k \in DOMAIN @ |-> IF st.g[k] = g /\ k \notin st.res THEN @[k] \cup {e.o} ELSE @[k]],
                    !.c = [j \in DOMAIN @ |-> IF @[j].g = g THEN [@[j] EXCEPT !.st = IF e.good THEN "ok" ELSE "bad", !.o = e.o, !.exp = st.now + st.ttl] ELSE @[j]]]
    [] e.op = "cancel" -> [st EXCEPT !.cut = @ \cup {e.k}]
    [] e.op = "res" -> [st EXCEPT !.res = @ \cup {e.k}, !.opt = IF e.o = "!cancelled" THEN @ ELSE @ \ {e.k}]
    [] e.op = "adv" -> LET t == st.now + e.t IN [st EXCEPT !.now = t, !.c = SelectSeq(@, LAMBDA x : ~(x.st = "ok" /\ st.ttl > 0 /\ x.exp < t) /\ x.st # "bad")]
    [] e.op = "quiet" -> [st EXCEPT !.opt = {}, !.c = SelectSeq(@, LAMBDA x : x.st # "bad")]
    [] OTHER -> st
============================================================================
