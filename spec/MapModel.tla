------------------------------- MODULE MapModel ---------------------------
(* TaskMapping: sources feed a loader, which starts one task per key        *)
(* (through a FIFO queue when there is a concurrency limit); a consumer     *)
(* reports finished tasks, paused or stopped by the environment.            *)
EXTENDS MapMon, TLC, Json
CONSTANTS NKeys, NSrcs, Concs, Modes, Kinds, MaxFeed, Vals, Fails, MaxLen, MinEmit, W, Dedup, KillRest, Cancels, Calm
VARIABLES s, h
vars == <<s, h>>
K == 1..NKeys
Src == 1..MaxOf(NSrcs)
Iter == {"aiter", "map", "mapit", "keys", "values", "items"}
Static == {"list", "gen", "set"}
Fresh(c) == [c |-> c, made |-> FALSE, feed |-> [i \in Src |-> <<>>], ended |-> {}, started |-> {}, wq |-> <<>>, run |-> {}, begun |-> FALSE, credit |-> 0,
             nfeed |-> 0, ngets |-> 0, dead |-> FALSE, stop |-> FALSE, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
Call(a, k) == Emit([a EXCEPT !.run = @ \cup {k}], [op |-> "call", k |-> k, a |-> ""])
Start(a, k) == IF k \in a.started /\ Dedup THEN a
               ELSE LET b == [a EXCEPT !.started = @ \cup {k}]
                    IN IF b.c.conc > 0 /\ Cardinality(b.run) >= b.c.conc THEN [b EXCEPT !.wq = Append(@, k)] ELSE Call(b, k)
Avail(a, k) == Start(Emit(a, [op |-> "avail", k |-> k]), k)
RECURSIVE AvailAll(_, _)
AvailAll(a, q) == IF q = <<>> THEN a ELSE AvailAll(Avail(a, Head(q)), Tail(q))
RECURSIVE LoadStatic(_, _)
LoadStatic(a, i) == IF i > a.c.nsrc THEN a ELSE LoadStatic(IF a.c.kinds[i] \in Static THEN AvailAll(a, a.feed[i]) ELSE a, i + 1)
AsyncSrc(a) == {i \in 1..a.c.nsrc : a.c.kinds[i] \notin Static}
Eos(a) == IF a.c.nsrc > 0 /\ AsyncSrc(a) \subseteq a.ended /\ ~a.mon.eos THEN Emit(a, [op |-> "eos"]) ELSE a
Loading(a) == a.made /\ ~a.dead /\ (a.c.mode = "mapit" => a.begun)
Load(a) == IF Loading(a) THEN Eos(LoadStatic(a, 1)) ELSE a
RECURSIVE Consume(_)
Vs(a, q) == [i \in 1..Len(q) |-> a.mon.out[q[i]]]
RECURSIVE Kill(_, _)
Kill(a, S) == IF S = {} THEN a ELSE LET k == MinOf(S) IN Kill(Emit([a EXCEPT !.run = @ \ {k}], [op |-> "kill", k |-> k]), S \ {k})
RECURSIVE LeftOf(_, _)
LeftOf(a, S) == IF S = {} THEN a ELSE LET k == MinOf(S) IN LeftOf(Emit(a, [op |-> "left", k |-> k, st |-> IF k \in a.run THEN "pending" ELSE "done"]), S \ {k})
(* consumption is over: with pop the mapping is emptied and what still runs is cancelled *)
Close(a) == IF ~a.c.pop \/ ~KillRest THEN (IF a.c.pop THEN LeftOf([a EXCEPT !.dead = TRUE], a.started) ELSE [a EXCEPT !.dead = @ \/ a.c.mode = "mapit"])
            ELSE LET b == Kill([a EXCEPT !.dead = TRUE, !.wq = <<>>], a.run)
                 IN LeftOf(Emit(Emit(b, [op |-> "size", n |-> 0]), [op |-> "again", o |-> "E:RuntimeError"]), b.started)
Raise(a, o) == Close(Emit(a, [op |-> "raise", o |-> o]))
Agg == {"all", "any", "max", "min", "sum"}
Sorts == {"ksort", "vsort"}
RECURSIVE VAsc(_, _)
VAsc(a, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : \A y \in S : a.c.vals[x] < a.c.vals[y] \/ (a.c.vals[x] = a.c.vals[y] /\ x <= y) IN <<k>> \o VAsc(a, S \ {k})
AggRes(a, S) == CASE a.c.mode = "max" -> MaxOf(MapVals(a.mon, S)) [] a.c.mode = "min" -> MinOf(MapVals(a.mon, S)) [] a.c.mode = "sum" -> SumOf(a.mon, S) [] OTHER -> 0
Finished(a) == a.mon.eos /\ Known(a.mon) \subseteq Ended(a.mon)
Consume(a) ==
  IF ~a.begun \/ a.mon.over THEN a
  ELSE IF a.mon.cxl # {} THEN Raise(a, "cancelled")
  ELSE IF a.mon.sfail # {} /\ a.mon.eos THEN Raise(a, CHOOSE o \in a.mon.sfail : TRUE)
  ELSE IF a.c.mode \in Iter THEN
    LET ready == (IF a.c.mode = "keys" THEN a.started ELSE Ended(a.mon)) \ a.mon.seen
    IN IF ~a.mon.want THEN IF a.credit > 0 THEN Consume(Emit([a EXCEPT !.credit = @ - 1], [op |-> "want"])) ELSE a
       ELSE IF ready # {} THEN
              LET k == MinOf(ready)
              IN IF a.c.mode # "keys" /\ k \in a.mon.fails THEN Raise(a, a.mon.out[k])
                 ELSE LET b == Emit(a, [op |-> "item", k |-> k, v |-> IF a.c.mode = "keys" THEN "" ELSE a.mon.out[k]])
                      IN IF b.stop THEN Close(Emit(b, [op |-> "stop"])) ELSE Consume(b)
       ELSE IF a.mon.eos /\ Known(a.mon) \subseteq a.mon.seen THEN Close(Emit(a, [op |-> "endit"])) ELSE a
  ELSE IF a.c.mode \in {"all", "any"} /\ \E k \in Ended(a.mon) \ a.mon.fails : Truthy(a.mon, k) = (a.c.mode = "any")
       THEN Close(Emit(a, [op |-> "agg", n |-> 0, b |-> IF a.c.mode = "any" THEN "True" ELSE "False"]))
  ELSE IF a.mon.fails # {} THEN Raise(a, a.mon.out[CHOOSE k \in a.mon.fails : TRUE])
  ELSE IF ~Finished(a) \/ ~(All(a.mon) \subseteq Ended(a.mon)) THEN a
  ELSE IF a.c.mode \in {"await", "gather"} THEN Close(Emit(a, [op |-> "res", ks |-> Asc(All(a.mon)), vs |-> Vs(a, Asc(All(a.mon))), rex |-> FALSE]))
  ELSE IF a.c.mode = "ksort" THEN Close(Emit(a, [op |-> "sorted", by |-> "k", rev |-> FALSE, view |-> "keys", q |-> Asc(All(a.mon))]))
  ELSE IF a.c.mode = "vsort" THEN Close(Emit(a, [op |-> "sorted", by |-> "v", rev |-> FALSE, view |-> "keys", q |-> VAsc(a, All(a.mon))]))
  ELSE IF a.c.mode \in {"max", "min"} /\ All(a.mon) = {} THEN Raise(a, "E:EmptySequenceError")
  ELSE IF a.c.mode \in Agg THEN Close(Emit(a, [op |-> "agg", n |-> AggRes(a, Known(a.mon)), b |-> IF a.c.mode = "all" THEN "True" ELSE "False"]))
  ELSE a
Quiet(a) == LET b == Consume(Load(a)) IN Emit(b, [op |-> "quiet"])
RECURSIVE Next1(_)
Next1(a) == IF a.wq # <<>> /\ ~a.dead /\ Cardinality(a.run) < a.c.conc THEN Next1(Call([a EXCEPT !.wq = Tail(@)], Head(a.wq))) ELSE a
Do(a, o) ==
  CASE o.op = "feed" -> LET b == [a EXCEPT !.feed[o.i] = Append(@, o.k), !.nfeed = @ + 1]
                        IN IF Loading(a) /\ a.c.kinds[o.i] = "agen" THEN Quiet(Avail(b, o.k)) ELSE b
    [] o.op = "eos" -> Quiet(Eos([IF a.c.kinds[o.i] = "await" /\ Loading(a) THEN AvailAll(a, a.feed[o.i]) ELSE a EXCEPT !.ended = @ \cup {o.i}]))
    [] o.op = "sfail" -> Quiet(Eos(Emit([a EXCEPT !.ended = @ \cup {o.i}], [op |-> "sfail", o |-> "E"])))
    [] o.op = "make" -> Quiet([a EXCEPT !.made = TRUE])
    [] o.op = "get" -> Quiet(Start(Emit([a EXCEPT !.ngets = @ + 1], [op |-> "get", k |-> o.k, i |-> o.k]), o.k))
    [] o.op = "begin" -> Quiet(Emit([a EXCEPT !.begun = TRUE], [op |-> "begin", w |-> a.c.mode \notin Iter]))
    [] o.op = "pull" -> Quiet([a EXCEPT !.credit = @ + 1])
    [] o.op = "stop" -> [a EXCEPT !.stop = TRUE]
    [] o.op = "fin" -> Quiet(Next1(Emit([a EXCEPT !.run = @ \ {o.k}],
                          [op |-> "end", k |-> o.k, o |-> IF o.f THEN "E" ELSE ToString(a.c.vals[o.k]), f |-> o.f])))
    [] o.op = "cancel" -> Quiet(Next1(Kill(Emit([a EXCEPT !.ngets = @ + 1], [op |-> "cancel", k |-> o.k]), {o.k})))
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "feed" -> o.i <= a.c.nsrc /\ o.i \notin a.ended /\ a.nfeed < MaxFeed /\ (a.c.kinds[o.i] \in Static => ~a.made)
                        /\ (a.c.kinds[o.i] \in {"agen"} => Loading(a)) /\ (a.c.pop => o.k # NKeys)
    [] o.op \in {"eos", "stop"} /\ Calm -> FALSE         \* generation only: long histories
    [] o.op = "eos" -> o.i \in AsyncSrc(a) /\ o.i \notin a.ended /\ Loading(a) /\ (a.c.kinds[o.i] = "await" => a.feed[o.i] # <<>>)
    [] o.op = "sfail" -> Fails /\ o.i \in AsyncSrc(a) /\ o.i \notin a.ended /\ Loading(a) /\ a.mon.sfail = {}
    [] o.op = "make" -> ~a.made /\ \A i \in 1..a.c.nsrc : a.c.kinds[i] \in Static => a.feed[i] # <<>>
    [] o.op = "get" -> a.made /\ ~a.mon.over /\ a.c.mode # "mapit" /\ ~a.dead /\ a.ngets < 2 /\ (a.c.pop \/ a.c.mode \in Agg \cup Sorts => ~a.begun) /\ (a.c.pop /\ a.c.nsrc > 0 => o.k = NKeys)
    [] o.op = "begin" -> a.made /\ ~a.begun /\ (a.c.nsrc > 0 \/ a.ngets > 0)
    [] o.op = "pull" -> a.begun /\ a.credit < 2 /\ a.c.mode \in Iter /\ ~a.mon.over
    [] o.op = "stop" -> a.begun /\ ~a.stop /\ a.c.mode \in Iter /\ ~a.mon.over
    [] o.op = "fin" -> o.k \in a.run /\ (o.f => Fails)
    [] o.op = "cancel" -> Cancels /\ o.k \in a.run /\ ~a.mon.over /\ a.ngets < 2
    [] o.op = "tick" -> a.made
    [] OTHER -> FALSE
Ops == [op : {"feed"}, i : Src, k : K] \cup [op : {"eos", "sfail"}, i : Src] \cup [op : {"get", "cancel"}, k : K] \cup [op : {"fin"}, k : K, f : BOOLEAN]
       \cup [op : {"make", "begin", "pull", "stop"}, w : 1..W] \cup {[op |-> "tick"]}
Cfgs == {[nsrc |-> n, kinds |-> kk, conc |-> c, mode |-> m, pop |-> p, vals |-> Vals] :
         n \in NSrcs, kk \in [Src -> Kinds], c \in Concs, m \in Modes, p \in BOOLEAN}
Legal(c) == /\ (c.mode = "mapit" => c.nsrc > 0)
            /\ (c.mode \in {"await", "gather"} => ~c.pop)
            /\ \A i \in Src : i > c.nsrc => c.kinds[i] = CHOOSE k \in Kinds : TRUE
Init == \E c \in Cfgs : Legal(c) /\ s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
Bounded == s.c.conc > 0 => Cardinality(s.run) <= s.c.conc
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit) => PrintT(ToJson(h))
============================================================================
