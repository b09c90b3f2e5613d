------------------------------ MODULE QueueMon ----------------------------
(* C06: Queue.  Items are distinct integers.                                *)
(*  put x            x entered                                              *)
(*  full x           put_nowait(x) raised QueueFull                         *)
(*  pstart p x / pend p how     a task waits in put(x) / ended without      *)
(*  gstart g k i less / gres g r / gend g how   a task is inside get,       *)
(*                   get_all or get_multi(i, less); its items r             *)
(*  now k i less exc r          a non-waiting get                           *)
(*  cancel t / td r / jstart j / jdone j / size n / quiet / final n         *)
(* A pending get_multi(i) without can_return_less may already hold up to    *)
(* i-1 items it will return later; everything else is exact.                *)
EXTENDS Lib
Init0(cfg) == [max |-> cfg.max, q |-> <<>>, pend |-> Empty, putters |-> Empty, doomed |-> {}, unf |-> 0,
               joins |-> {}, joined |-> {}]
HoldOf(p) == IF p.k = "multi" /\ ~p.less THEN p.i - 1 ELSE 0
RECURSIVE HoldSum(_, _)
HoldSum(f, S) == IF S = {} THEN 0 ELSE LET g == CHOOSE x \in S : TRUE IN HoldOf(f[g]) + HoldSum(f, S \ {g})
Hold(st, but) == HoldSum(st.pend, DOMAIN st.pend \ {but})
Increasing(r) == \A i, j \in DOMAIN r : i < j => r[i] < r[j]
Pos(st, x) == IndexOf(st.q, x)
\* the items of r leave the queue in order, and what they overtake is at most what others hold
Leaves(st, r, hold) ==
  Flag(\E i \in DOMAIN r : r[i] \notin Range(st.q), "an item was delivered twice or was never put")
  \cup (IF r # <<>> /\ \A i \in DOMAIN r : r[i] \in Range(st.q)
        THEN Flag(\E i, j \in DOMAIN r : i < j /\ Pos(st, r[i]) >= Pos(st, r[j]), "items left out of order")
             \cup Flag(Pos(st, Last(r)) - Len(r) > hold, "an item overtook older ones")
        ELSE {})
Lo(st, hold) == Max2(0, Len(st.q) - hold)   \* the queue really holds between Lo and Hi items
Hi(st) == Len(st.q)
Why(st, e) ==
  CASE e.op \in {"pstart", "gstart", "cancel", "jstart"} -> {}
    [] e.op = "put"   -> Flag(st.max > 0 /\ Lo(st, Hold(st, 0)) >= st.max, "a bounded queue exceeded its size")
    [] e.op = "full"  -> Flag(st.max = 0 \/ Hi(st) < st.max, "QueueFull although there was room")
    [] e.op = "pend"  -> Flag(e.p \notin st.doomed \/ e.how # "cancelled", "put failed without being cancelled")
    [] e.op = "gend"  -> Flag(e.g \notin st.doomed \/ e.how # "cancelled", "a waiting get failed without being cancelled")
    [] e.op = "gres"  ->
         LET p == st.pend[e.g]
         IN Leaves(st, e.r, Hold(st, e.g))
            \cup Flag(p.k = "one" /\ Len(e.r) # 1, "get did not return one item")
            \cup Flag(p.k = "all" /\ Len(e.r) < 1, "get_all returned nothing")
            \cup Flag(p.k = "multi" /\ ~p.less /\ Len(e.r) # p.i, "get_multi did not return exactly i items")
            \cup Flag(p.k = "multi" /\ p.less /\ Len(e.r) \notin 1..p.i, "get_multi returned no item or more than i")
    [] e.op = "now"   ->
         LET hold == Hold(st, 0)
             lo == Lo(st, hold)
             hi == Hi(st)
             need == IF e.k = "multi" /\ ~e.less THEN e.i ELSE 1
         IN IF e.exc = "" THEN
              Leaves(st, e.r, hold)
              \cup Flag(Len(e.r) < need, "a non-waiting get returned too few items")
              \cup Flag(e.k = "one" /\ Len(e.r) # 1, "get_nowait did not return one item")
              \cup Flag(e.k = "all" /\ Len(e.r) < lo, "get_all_nowait left items behind")
              \cup Flag(e.k = "multi" /\ (Len(e.r) > e.i \/ Len(e.r) < Min2(e.i, lo)), "get_multi_nowait returned a wrong number of items")
            ELSE IF e.exc = "QueueEmpty" THEN Flag(lo >= need, "QueueEmpty although the items were there")
            ELSE {"a non-waiting get raised " \o e.exc}
    [] e.op = "td"    -> Flag(e.r # (IF st.unf > 0 THEN "ok" ELSE "ValueError"), "task_done accounting is wrong")
    [] e.op = "jdone" -> Flag(e.j \notin st.joined, "join() completed with unfinished items")
    [] e.op = "size"  -> Flag(e.n \notin Lo(st, Hold(st, 0))..Hi(st), "qsize is wrong")
                         \cup Flag(st.max > 0 /\ e.n > st.max, "a bounded queue exceeded its size")
    [] e.op = "quiet" ->
         Flag((DOMAIN st.pend) \ st.doomed # {} /\ Lo(st, Hold(st, 0)) > 0, "a getter sleeps although items are there")
         \cup Flag((DOMAIN st.putters) \ st.doomed # {} /\ (st.max = 0 \/ Hi(st) < st.max), "a putter sleeps although there is room")
         \cup Flag(((DOMAIN st.pend) \cup DOMAIN st.putters) \cap st.doomed # {}, "a cancelled get or put never ended")
         \cup Flag(st.joins \cap st.joined # {}, "join() did not complete although everything was done")
    [] e.op = "final" -> Flag(st.q # <<>> /\ DOMAIN st.pend = {}, "items were lost")
    [] OTHER          -> {"unexpected event " \o e.op}
Remove(q, r) == SelectSeq(q, LAMBDA x : x \notin Range(r))
After(st, e) ==
  CASE e.op = "put"    -> [st EXCEPT !.q = Append(@, e.x), !.unf = @ + 1, !.putters = IF e.p = 0 THEN @ ELSE Del(@, e.p)]
    [] e.op = "pstart" -> [st EXCEPT !.putters = Put(@, e.p, e.x)]
    [] e.op = "pend"   -> [st EXCEPT !.putters = Del(@, e.p)]
    [] e.op = "gstart" -> [st EXCEPT !.pend = Put(@, e.g, [k |-> e.k, i |-> e.i, less |-> e.less])]
    [] e.op = "gres"   -> [st EXCEPT !.pend = Del(@, e.g), !.q = Remove(@, e.r)]
    [] e.op = "gend"   -> [st EXCEPT !.pend = Del(@, e.g)]
    [] e.op = "now"    -> [st EXCEPT !.q = Remove(@, e.r)]
    [] e.op = "cancel" -> [st EXCEPT !.doomed = @ \cup {e.t}]
    [] e.op = "td"     -> LET u == Max2(0, st.unf - 1) IN [st EXCEPT !.unf = u, !.joined = IF u = 0 THEN @ \cup st.joins ELSE @]
    [] e.op = "jstart" -> [st EXCEPT !.joins = @ \cup {e.j}, !.joined = IF st.unf = 0 THEN @ \cup {e.j} ELSE @]
    [] e.op = "jdone"  -> [st EXCEPT !.joins = @ \ {e.j}]
    [] OTHER           -> st
============================================================================
