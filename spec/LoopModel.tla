------------------------------ MODULE LoopModel ---------------------------
(* A primitive (or cached value) whose waiters belong to loops.  Loops are  *)
(* run in turn; a loop that is not running keeps its place in the queue and *)
(* learns of a grant when it is run again; a loop that ends cancels its     *)
(* tasks.  Tidy: a cancelled waiter leaves the queue and passes its grant   *)
(* on.                                                                      *)
EXTENDS LoopMon, TLC, Json
CONSTANTS Kinds, Ns, MaxK, MaxV, MaxLoops, MaxLen, MinEmit, W, Tidy
VARIABLES s, h
vars == <<s, h>>
Fresh(c) == [c |-> c, k |-> 0, cur |-> 1, other |-> 0, nl |-> 1, val |-> IF Permit([c |-> c]) THEN c.n ELSE c.n0, q |-> <<>>, pre |-> {}, b |-> 0,
             mon |-> After(Init0(c), [op |-> "new", o |-> "ok"]), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
L(a, w) == a.mon.on[w]
\* hand free permits to the queue
RECURSIVE Grant(_)
Grant(a) == IF a.val > 0 /\ a.q # <<>> THEN Grant([a EXCEPT !.val = @ - 1, !.pre = @ \cup {Head(a.q)}, !.q = Tail(@)]) ELSE a
\* the running loop notices
RECURSIVE Notice(_, _)
Notice(a, S) ==
  IF S = {} THEN a
  ELSE LET w == MinOf(S)
           b == [a EXCEPT !.pre = @ \ {w}]
       IN Notice(IF Permit(a.mon) THEN Emit(b, [op |-> "got", w |-> w]) ELSE Emit(b, [op |-> "res", w |-> w, o |-> "=True"]), S \ {w})
Show(a) == Notice(a, {w \in a.pre : w > 0 /\ L(a, w) = a.cur})
Release(a, w) == LET b == Emit(a, [op |-> "rel", w |-> w]) IN Grant([b EXCEPT !.val = @ + 1])
Cut(a, w) ==
  LET b == Emit(a, [op |-> "res", w |-> w, o |-> "!cancelled"])
      c == IF w \in a.pre THEN [b EXCEPT !.pre = @ \ {w}, !.val = IF Permit(a.mon) /\ Tidy THEN @ + 1 ELSE @] ELSE IF Tidy THEN [b EXCEPT !.q = Without(@, w)] ELSE b
  IN IF Permit(a.mon) THEN Grant(c) ELSE c
RECURSIVE CutAll(_, _)
CutAll(a, S) == IF S = {} THEN a ELSE LET w == MinOf(S) IN CutAll(IF w \in a.mon.held THEN Release(a, w) ELSE Cut(a, w), S \ {w})
Mine(a) == {w \in Open(a.mon) : L(a, w) = a.cur}
Nth(S, w) == IF w = 1 THEN MinOf(S) ELSE MaxOf(S)
New(a) == [a EXCEPT !.k = @ + 1]
RECURSIVE ResAll(_, _, _)
ResAll(a, S, o) == IF S = {} THEN a ELSE ResAll(Emit(a, [op |-> "res", w |-> MinOf(S), o |-> o]), S \ {MinOf(S)}, o)
End(a, o) == LET t == (IF o = "=" THEN "=v" ELSE "!x") \o ToString(a.b)
                 b == Emit(a, [op |-> "end", b |-> a.b, o |-> IF o = "c" THEN "!cancelled" ELSE t, good |-> o = "="])
             IN IF o = "c" THEN b ELSE ResAll(b, Open(b.mon), t)
Do(a, o) ==
  CASE o.op = "acq" -> LET w == a.k + 1 IN Show(Grant([Emit(New(a), [op |-> "acq", w |-> w, l |-> a.cur]) EXCEPT !.q = Append(@, w)]))
    [] o.op = "rel" -> Show(Release(a, Nth(a.mon.held \cap Mine(a), o.w)))
    [] o.op = "cut" -> LET w == Nth(Mine(a), o.w)
                           b == Emit(a, [op |-> "cancel", w |-> w])
                       IN Show(IF w \in a.mon.held THEN Release(b, w) ELSE Cut(b, w))
    [] o.op = "wait" -> LET w == a.k + 1
                            b == Emit(New(a), [op |-> "wait", w |-> w, l |-> a.cur, v |-> o.v])
                        IN IF Ready(a.mon, o.v) THEN Emit(b, [op |-> "res", w |-> w, o |-> "=True"]) ELSE [b EXCEPT !.q = Append(@, w)]
    [] o.op = "set" -> LET b == Emit(a, [op |-> "set", v |-> o.v, o |-> "ok"])
                           S == {w \in Range(a.q) : a.c.kind = "event" \/ a.mon.v[w] <= o.v}
                       IN Show([b EXCEPT !.q = SelectSeq(@, LAMBDA w : w \notin S), !.pre = @ \cup S])
    [] o.op = "clear" -> Emit(a, [op |-> "clear", o |-> "ok"])
    [] o.op = "look" -> Emit(a, [op |-> "look", v |-> o.v, b |-> Ready(a.mon, o.v)])
    [] o.op = "call" ->
         LET w == a.k + 1
             b == Emit(New(a), [op |-> "call", w |-> w, l |-> a.cur])
         IN IF a.mon.memo # "" THEN Emit(b, [op |-> "res", w |-> w, o |-> a.mon.memo])
            ELSE IF DOMAIN a.mon.run # {} THEN b ELSE Emit([b EXCEPT !.b = @ + 1], [op |-> "body", b |-> a.b + 1])
    [] o.op = "end" -> End(a, o.o)
    [] o.op = "over" ->
         LET b == Emit(a, [op |-> "over", l |-> a.cur])
             c == IF a.c.kind = "memo" /\ DOMAIN a.mon.run # {} THEN End(b, "c") ELSE b
             d == CutAll(c, Mine(c))
         IN Show([d EXCEPT !.cur = IF a.other = 0 THEN a.nl + 1 ELSE a.other, !.other = 0, !.nl = IF a.other = 0 THEN @ + 1 ELSE @])
    [] o.op = "swap" -> Show([a EXCEPT !.cur = IF a.other = 0 THEN a.nl + 1 ELSE a.other, !.other = a.cur, !.nl = IF a.other = 0 THEN @ + 1 ELSE @])
    [] o.op = "settle" -> Emit(a, [op |-> "quiet", l |-> a.cur])
    [] OTHER -> a
Flags(a) == a.c.kind \in {"event", "counter"}
Can(a, o) ==
  CASE o.op = "acq" -> Permit(a.mon) /\ a.k < MaxK
    [] o.op = "rel" -> Permit(a.mon) /\ LET S == a.mon.held \cap Mine(a) IN S # {} /\ (o.w = 1 \/ Cardinality(S) > 1)
    [] o.op = "cut" -> a.c.kind # "memo" /\ Mine(a) # {} /\ (o.w = 1 \/ Cardinality(Mine(a)) > 1)
    [] o.op = "wait" -> Flags(a) /\ a.k < MaxK /\ (a.c.kind = "event" => o.v = 1)
    [] o.op = "set" -> Flags(a) /\ (IF a.c.kind = "event" THEN o.v = 1 ELSE o.v > a.mon.val)
    [] o.op = "clear" -> a.c.kind = "event"
    [] o.op = "look" -> Flags(a) /\ W > 0 /\ (a.c.kind = "event" => o.v = 1)
    [] o.op = "call" -> a.c.kind = "memo" /\ a.k < MaxK
    [] o.op = "end" -> a.c.kind = "memo" /\ DOMAIN a.mon.run # {}
    [] o.op = "over" -> a.nl < MaxLoops /\ Len(h) > 1 /\ h[Len(h)].op # "over"
    [] o.op = "swap" -> a.c.kind # "memo" /\ a.nl < MaxLoops /\ Len(h) > 1 /\ h[Len(h)].op # "swap"
    [] o.op = "settle" -> Len(h) > 1 /\ h[Len(h)].op # "settle"
    [] OTHER -> FALSE
Ops == [op : {"acq", "call", "clear"}] \cup [op : {"rel", "cut"}, w : 1..2] \cup [op : {"wait", "set", "look"}, v : 1..MaxV] \cup [op : {"end"}, o : {"=", "!"}] \cup [op : {"over", "swap", "settle"}, z : {1}]
Cfgs == {c \in [kind : Kinds, n : Ns, n0 : {0}] : c.kind \notin {"sem", "fsem"} => c.n = MinOf(Ns)}
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
\* no permit gets lost
Permits == Permit(s.mon) /\ Tidy => s.val + Cardinality(s.mon.held) + Cardinality(s.pre) = s.c.n
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
