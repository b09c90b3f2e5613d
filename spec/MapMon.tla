-------------------------------- MODULE MapMon ----------------------------
(* C11/C12: TaskMapping.  Keys are 1..n; the value of key k is cfg.vals[k]. *)
(*  get k i            item access gave task number i                       *)
(*  avail k / eos / sfail o    a source yielded k / all ended / one failed  *)
(*  call k a           the function was called with k; a = "" if its other  *)
(*                     arguments are right                                  *)
(*  end k o / kill k   it ended with outcome o / it was cancelled           *)
(*  begin              the consumer starts                                  *)
(*  want / item k v / endit / raise o     consumption item by item          *)
(*  res ks vs          the whole result at once                             *)
(*  agg n b            result of all any (b) or max min sum (n)             *)
(*  sorted by rev view q                                                    *)
(*  size n / left k st / again o / res2 ks vs    afterwards                 *)
(*  cancel k           somebody cancelled the task of k                     *)
(*  quiet                                                                   *)
EXTENDS Lib
Init0(cfg) == [conc |-> cfg.conc, mode |-> cfg.mode, pop |-> cfg.pop, vals |-> cfg.vals, avail |-> {}, eos |-> cfg.nsrc = 0, sfail |-> {}, pre |-> {},
               acc |-> {}, tid |-> Empty, called |-> {}, run |-> {}, out |-> Empty, fails |-> {}, killed |-> {}, cxl |-> {}, seen |-> {}, begun |-> FALSE,
               want |-> FALSE, over |-> FALSE]
Known(st) == st.avail \cup st.pre
All(st) == st.avail \cup st.acc
Ended(st) == DOMAIN st.out
AllDone(st) == st.eos /\ Known(st) \subseteq Ended(st)
Truthy(st, k) == st.vals[k] # 0
Ok(st, k) == k \in Ended(st) /\ k \notin st.fails
MapVals(st, S) == {st.vals[k] : k \in S}
RECURSIVE SumOf(_, _)
SumOf(st, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN st.vals[k] + SumOf(st, S \ {k})
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET k == MinOf(S) IN <<k>> \o Asc(S \ {k})
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
V(st, q) == [i \in 1..Len(q) |-> st.vals[q[i]]]
Pairs(st, ks, vs, S) ==
  Flag(~NoDup(ks) \/ Len(ks) # Len(vs), "a key was reported twice")
  \cup Flag(~(S \subseteq Range(ks)) \/ ~(Range(ks) \subseteq All(st)), "the result does not have exactly the keys of the mapping")
  \cup Flag(\E i \in DOMAIN ks : ks[i] \notin Ended(st) \/ (i \in DOMAIN vs /\ ks[i] \in Ended(st) /\ vs[i] # st.out[ks[i]]), "a key was reported with another result than its own")
Why(st, e) ==
  CASE e.op \in {"avail", "eos", "sfail", "begin", "want", "stop", "cancel"} -> {}
    [] e.op = "get" -> Flag(e.k \in DOMAIN st.tid /\ st.tid[e.k] # e.i, "item access returned a different task for the same key")
                       \cup Flag(e.i \in {st.tid[x] : x \in DOMAIN st.tid \ {e.k}}, "two keys share a task")
    [] e.op = "call" -> Flag(e.k \in st.called, "the function was called twice for a key")
                        \cup Flag(e.k \notin All(st), "the function was called for a key nobody asked for")
                        \cup Flag(e.a # "", "the function was called with wrong arguments")
                        \cup Flag(st.conc > 0 /\ Cardinality(st.run) >= st.conc, "more calls run at once than the concurrency limit allows")
    [] e.op = "end" -> Flag(e.k \notin st.run, "harness: end of a call that does not run")
    [] e.op = "kill" -> Flag(~st.pop /\ e.k \notin st.cxl, "a running task was cancelled although nothing was consumed")
    [] e.op = "item" ->
         Flag(e.k \in st.seen, "a key was reported twice")
         \cup Flag(e.k \notin All(st), "a key was reported that the mapping does not have")
         \cup Flag(st.mode # "keys" /\ e.k \in All(st) /\ (e.k \notin Ended(st) \/ (e.k \in Ended(st) /\ st.out[e.k] # e.v)), "a key was reported with another result than its own")
    [] e.op = "endit" ->
         Flag(~st.eos, "the iteration ended before its sources")
         \cup Flag(st.sfail # {}, "the failure of a source was dropped")
         \cup Flag(Known(st) \ st.seen # {}, "a key was never reported")
    [] e.op = "raise" ->
         Flag(e.o \notin {st.out[k] : k \in st.fails} \cup st.sfail \cup (IF st.cxl # {} THEN {"cancelled"} ELSE {}) \cup (IF All(st) = {} THEN {"E:EmptySequenceError", "E:MappingIsEmptyError"} ELSE {}),
              "consumption raised something nobody raised: " \o e.o)
    [] e.op = "res" -> Flag(~st.eos \/ st.sfail # {}, "the result came although a source failed or had not ended")
                       \cup Pairs(st, e.ks, e.vs, Known(st)) \cup Flag(st.fails \cap (Known(st) \cup Range(e.ks)) # {} /\ e.rex = FALSE, "the failure of a task was dropped")
    [] e.op = "res2" -> Pairs(st, e.ks, e.vs, All(st))
    [] e.op = "agg" ->
         LET K == Known(st)
             whole == Flag(~st.eos \/ st.sfail # {} \/ ~(K \subseteq Ended(st)) \/ st.fails # {}, "an aggregate ignored a key, a failing task or a failing source")
         IN CASE st.mode = "all" -> IF e.b = "False" THEN Flag(~\E k \in All(st) : Ok(st, k) /\ ~Truthy(st, k), "all() is False although no result is falsy")
                                    ELSE whole \cup Flag(e.b # "True" \/ \E k \in K : ~Truthy(st, k), "all() is True although a result is falsy")
              [] st.mode = "any" -> IF e.b = "True" THEN Flag(~\E k \in All(st) : Ok(st, k) /\ Truthy(st, k), "any() is True although no result is truthy")
                                    ELSE whole \cup Flag(e.b # "False" \/ \E k \in K : Truthy(st, k), "any() is False although a result is truthy")
              [] st.mode = "max" -> whole \cup Flag(K = {} \/ (K # {} /\ e.n # MaxOf(MapVals(st, K))), "max() is wrong")
              [] st.mode = "min" -> whole \cup Flag(K = {} \/ (K # {} /\ e.n # MinOf(MapVals(st, K))), "min() is wrong")
              [] OTHER -> whole \cup Flag(e.n # SumOf(st, K), "sum() is wrong")
    [] e.op = "sorted" ->
         LET K == All(st)
             ks == IF e.rev THEN Rev(Asc(K)) ELSE Asc(K)
             vq == IF e.view = "values" THEN e.q ELSE V(st, e.q)
         IN Flag(~st.eos \/ st.sfail # {} \/ st.fails # {}, "a sorted view ignored a failure")
            \cup (IF e.by = "k" THEN Flag(e.q # (IF e.view = "values" THEN V(st, ks) ELSE ks), "the view is not in key order")
                  ELSE Flag(~SameBag(vq, V(st, ks)) \/ (e.view # "values" /\ (~NoDup(e.q) \/ Range(e.q) # K)), "the sorted view does not have exactly the elements of the mapping")
                       \cup Flag(\E i \in 1..(Len(vq) - 1) : IF e.rev THEN vq[i] < vq[i + 1] ELSE vq[i] > vq[i + 1], "the view is not in value order"))
    [] e.op = "size" -> IF st.pop THEN Flag(e.n # 0, "the mapping is not empty after it was consumed")
                        ELSE Flag(e.n # Cardinality(All(st)), "the mapping is not intact after it was read")
    [] e.op = "left" -> Flag(st.pop /\ e.k \notin st.seen /\ e.st = "pending", "consumption left a task running")
    [] e.op = "again" -> Flag(e.o # "E:RuntimeError", "a second consumption was not refused")
    [] e.op = "quiet" ->
         IF st.over THEN {}
         ELSE Flag(st.mode # "mapit" /\ st.sfail = {} /\ All(st) \ (st.called \cup st.cxl) # {} /\ (st.conc = 0 \/ Cardinality(st.run) < st.conc), "a key's task is not started although it could be")
              \cup Flag(st.want /\ st.mode = "aiter" /\ ((Ended(st) \cup st.cxl) \cap st.avail) \ st.seen # {}, "the consumer sleeps although a result is available")
              \cup Flag(st.want /\ st.eos /\ st.mode \notin {"mapit", "keys", "values", "items"} /\ (st.cxl \cap Known(st)) \ st.seen # {}, "the consumer sleeps although a task was cancelled")
              \cup Flag(st.want /\ st.eos /\ st.cxl = {} /\ st.run = {} /\ (st.mode = "mapit" \/ st.sfail # {} \/ All(st) \subseteq st.called), "the consumer sleeps although everything is done")
    [] OTHER -> {"unexpected event " \o e.op}
Over(st) == [st EXCEPT !.over = TRUE, !.want = FALSE]
After(st, e) ==
  CASE e.op = "get" -> [st EXCEPT !.acc = @ \cup {e.k}, !.pre = IF st.begun THEN @ ELSE @ \cup {e.k}, !.tid = Put(@, e.k, e.i)]
    [] e.op = "avail" -> [st EXCEPT !.avail = @ \cup {e.k}]
    [] e.op = "eos" -> [st EXCEPT !.eos = TRUE]
    [] e.op = "sfail" -> [st EXCEPT !.sfail = @ \cup {e.o}]
    [] e.op = "call" -> [st EXCEPT !.called = @ \cup {e.k}, !.run = @ \cup {e.k}]
    [] e.op = "end" -> [st EXCEPT !.run = @ \ {e.k}, !.out = Put(@, e.k, e.o), !.fails = IF e.f THEN @ \cup {e.k} ELSE @]
    [] e.op = "cancel" -> [st EXCEPT !.cxl = @ \cup {e.k}]
    [] e.op = "kill" -> [st EXCEPT !.run = @ \ {e.k}, !.killed = @ \cup {e.k}]
    [] e.op = "begin" -> [st EXCEPT !.begun = TRUE, !.want = e.w]
    [] e.op = "want" -> [st EXCEPT !.want = TRUE]
    [] e.op = "item" -> [st EXCEPT !.seen = @ \cup {e.k}, !.want = FALSE]
    [] e.op \in {"endit", "raise", "res", "agg", "sorted", "stop"} -> Over(st)
    [] OTHER -> st
============================================================================
