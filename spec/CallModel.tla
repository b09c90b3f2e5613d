----------------------------- MODULE CallModel ----------------------------
(* The decorator as the code does it: the flag is looked up and popped from *)
(* the keywords, else the default, else how the function was defined; sync  *)
(* functions awaited asynchronously go through an executor's FIFO queue.    *)
EXTENDS CallMon, TLC, Json
CONSTANTS MaxK, Ws, MaxLen, MinEmit, W, Pops
VARIABLES s, h
vars == <<s, h>>
K == 1..MaxK
Fresh(c) == [c |-> c, n |-> 0, flag |-> [k \in K |-> ""], gate |-> [k \in K |-> <<>>], aw |-> {}, rq |-> <<>>, eq |-> <<>>, run |-> {}, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
IsSync(c, f) == IF Flagged(f) THEN f \in {"sync+", "asyn-"} ELSE IF c.deflt = "sync" THEN TRUE ELSE IF c.deflt = "async" THEN FALSE ELSE c.def # "async"
Args(k, f) == <<k, IF Pops THEN "none" ELSE f>>
Body(a, k, th) == Emit(a, [op |-> "body", k |-> k, args |-> Args(k, a.flag[k]), th |-> th])
End(a, k) == LET b == Emit([a EXCEPT !.run = @ \ {k}], [op |-> "end", k |-> k, o |-> a.gate[k]]) IN b
RECURSIVE Feed(_)
\* idle workers take jobs; a job whose outcome is set ends at once
Feed(a) == IF a.eq = <<>> \/ Cardinality(a.run) >= a.c.w THEN a
           ELSE LET k == Head(a.eq)
                    b == Body([a EXCEPT !.eq = Tail(@), !.run = @ \cup {k}], k, "other")
                IN IF b.gate[k] = <<>> THEN Feed(b) ELSE Feed([End(b, k) EXCEPT !.rq = Append(@, <<"res", k>>)])
Start(a, k) == IF a.c.def = "async" THEN LET b == Body([a EXCEPT !.run = @ \cup {k}], k, "caller")
                                         IN IF b.gate[k] = <<>> THEN b ELSE LET d == End(b, k) IN Emit(d, [op |-> "res", k |-> k, o |-> d.mon.out[k]])
               ELSE Feed([a EXCEPT !.eq = Append(@, k)])
Run1(a, x) == CASE x[1] = "start" -> Start(a, x[2])
                [] x[1] = "wake" -> LET b == End(a, x[2]) IN Emit(b, [op |-> "res", k |-> x[2], o |-> b.mon.out[x[2]]])
                [] OTHER -> Emit(a, [op |-> "res", k |-> x[2], o |-> a.mon.out[x[2]]])
RECURSIVE Settle(_)
Settle(a) == IF a.rq = <<>> THEN a ELSE Settle(Run1([a EXCEPT !.rq = Tail(@)], Head(a.rq)))
SetGate(a, k, o) == IF a.gate[k] = <<>> THEN [a EXCEPT !.gate[k] = o] ELSE a
Out(k, o) == IF o = "x" THEN <<"!", k>> ELSE <<"=", k>>
Do(a, o) ==
  CASE o.op = "call" ->
         LET k == a.n + 1
             b == Emit([a EXCEPT !.n = k, !.flag[k] = o.flag], [op |-> "call", k |-> k, flag |-> o.flag, ctx |-> o.ctx, args |-> <<k, "none">>])
         IN IF o.flag = "both" THEN Emit(b, [op |-> "ret", k |-> k, kind |-> "raise", o |-> "!E:TooManyFlags"])
            ELSE IF ~IsSync(a.c, o.flag) THEN Emit(b, [op |-> "ret", k |-> k, kind |-> "awaitable", o |-> ""])
            ELSE IF a.c.def = "async" /\ o.ctx = "loop" THEN Emit(b, [op |-> "ret", k |-> k, kind |-> "raise", o |-> "!E:SyncModeInAsyncContextError"])
            ELSE LET d == End(Body([SetGate(b, k, Out(k, o.o)) EXCEPT !.run = @ \cup {k}], k, "caller"), k)
                 IN Emit(d, [op |-> "ret", k |-> k, kind |-> IF o.o = "x" THEN "raise" ELSE "value", o |-> d.mon.out[k]])
    [] o.op = "await" -> [Emit([a EXCEPT !.aw = @ \cup {o.k}], [op |-> "await", k |-> o.k]) EXCEPT !.rq = Append(@, <<"start", o.k>>)]
    [] o.op = "fin" -> LET b == SetGate(a, o.k, Out(o.k, o.o))
                       IN IF o.k \notin a.run THEN b
                          ELSE IF a.c.def = "async" THEN [b EXCEPT !.rq = Append(@, <<"wake", o.k>>)]
                          ELSE Feed([End(b, o.k) EXCEPT !.rq = Append(@, <<"res", o.k>>)])
    [] o.op = "settle" -> Emit(Settle(a), [op |-> "quiet"])
    [] OTHER -> a
Async(a, k) == a.n >= k /\ a.flag[k] # "both" /\ ~IsSync(a.c, a.flag[k])
Can(a, o) ==
  CASE o.op = "call" -> a.n < MaxK
    [] o.op = "await" -> Async(a, o.k) /\ o.k \notin a.aw
    [] o.op = "fin" -> Async(a, o.k) /\ a.gate[o.k] = <<>>
    [] o.op = "settle" -> a.rq # <<>>
    [] OTHER -> FALSE
FlagSet == {"none", "sync+", "sync-", "asyn+", "asyn-", "both"}
Ops == [op : {"call"}, flag : FlagSet, ctx : {"loop", "bare", "idle"}, o : {"v", "x"}] \cup [op : {"await"}, k : K] \cup
       [op : {"fin"}, k : K, o : {"v", "x"}] \cup [op : {"settle"}, w : 1..W]
Cfgs == [def : {"sync", "async"}, deflt : {"none", "sync", "async"}, w : Ws]
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
