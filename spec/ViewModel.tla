------------------------------ MODULE ViewModel ---------------------------
(* Iterables and their views as the code builds them: an iterator is a      *)
(* position in its source; a filter loops over its stored iterator; a       *)
(* sorter collects (key, item) pairs on its first use and inserts them into *)
(* a sorted list one by one.                                                *)
EXTENDS ViewMon, TLC, Json
CONSTANTS Srcs, Mks, Views, MaxObjs, MaxIts, Fs, Nexts, Alls, Envs, MaxLen, MinEmit, W, Stable, Shared
VARIABLES s, h
vars == <<s, h>>
\* source i has i % 4 items; sources from 4 on raise at their last step
Item(i, j) == [x |-> FALSE, v |-> ToString(i) \o "." \o ToString(j), p |-> <<IF (i + j) % 2 = 0 THEN "t" ELSE "f", IF j = 2 /\ i > 5 THEN "P" ELSE "t">>,
               k |-> << <<(i * j) % 2, "">>, <<(3 - j), IF j = 2 /\ i = 6 THEN "K" ELSE "">> >>]
Steps(i) == [j \in 1..(i % 4) |-> IF i >= 4 /\ j = i % 4 THEN [x |-> TRUE, v |-> "X", p |-> <<>>, k |-> <<>>] ELSE Item(i, j)]
Fresh(c) == [c |-> c, nodes |-> <<>>, objs |-> <<>>, its |-> <<>>, mon |-> Init0(c), bad |-> {}]
Emit(a, e) == [a EXCEPT !.bad = @ \cup Why(a.mon, e), !.mon = After(@, e)]
\* --- the mechanism: nodes hold positions, stored iterators and buffers
RECURSIVE Nx(_, _)
RECURSIVE Collect(_, _, _)
Insert(q, s1, f, rev) ==
  LET later == {i \in 1..Len(q) : IF rev THEN q[i].k[f][1] < s1.k[f][1] \/ (~Stable /\ q[i].k[f][1] = s1.k[f][1]) ELSE q[i].k[f][1] > s1.k[f][1] \/ (~Stable /\ q[i].k[f][1] = s1.k[f][1])}
      at == IF later = {} THEN Len(q) + 1 ELSE MinOf(later)
  IN SubSeq(q, 1, at - 1) \o <<s1>> \o SubSeq(q, at, Len(q))
RECURSIVE SortIn(_, _, _, _)
SortIn(q, out, f, rev) == IF q = <<>> THEN out ELSE SortIn(Tail(q), Insert(out, Head(q), f, rev), f, rev)
Nx(ns, n) ==
  LET a == ns[n]
  IN CASE a.t = "base" -> IF a.left = <<>> THEN [ns |-> ns, r |-> "stop", v |-> "", s |-> Nothing]
                          ELSE [ns |-> [ns EXCEPT ![n].left = IF Head(@).x THEN <<>> ELSE Tail(@)], r |-> IF Head(a.left).x THEN "exc" ELSE "item", v |-> Head(a.left).v, s |-> Head(a.left)]
       [] a.t = "filter" -> LET p == Nx(ns, a.src)
                            IN IF p.r # "item" THEN p
                               ELSE IF p.s.p[a.f] = "t" THEN p
                               ELSE IF p.s.p[a.f] = "f" THEN Nx(p.ns, n)
                               ELSE [p EXCEPT !.r = "exc", !.v = p.s.p[a.f]]
       [] OTHER -> IF a.started THEN IF a.left = <<>> THEN [ns |-> ns, r |-> "stop", v |-> "", s |-> Nothing]
                                     ELSE [ns |-> [ns EXCEPT ![n].left = Tail(@)], r |-> "item", v |-> Head(a.left).v, s |-> Head(a.left)]
                   ELSE LET d == Collect(ns, a.src, <<>>)
                            ks == SelectSeq(d.q, LAMBDA x : x.k[a.f][2] # "")
                            m == [d.ns EXCEPT ![n].started = TRUE]
                        IN IF d.r = "exc" THEN [ns |-> m, r |-> "exc", v |-> d.v, s |-> Nothing]
                           ELSE IF ks # <<>> THEN [ns |-> m, r |-> "exc", v |-> ks[1].k[a.f][2], s |-> Nothing]
                           ELSE Nx([m EXCEPT ![n].left = SortIn(d.q, <<>>, a.f, a.rev)], n)
Collect(ns, n, q) == LET p == Nx(ns, n) IN IF p.r = "item" THEN Collect(p.ns, n, Append(q, p.s)) ELSE [ns |-> p.ns, r |-> p.r, v |-> p.v, q |-> q]
NewBase(i) == [t |-> "base", left |-> Steps(i), src |-> 0]
\* the node an iteration over object o runs on
NodeFor(a, o) == IF a.objs[o].re /\ ~Shared THEN [ns |-> Append(a.nodes, NewBase(a.objs[o].i)), n |-> Len(a.nodes) + 1] ELSE [ns |-> a.nodes, n |-> a.objs[o].n]
RECURSIVE Root(_, _)
Root(ns, n) == IF ns[n].src = 0 THEN n ELSE Root(ns, ns[n].src)
Step(a, c) == LET p == Nx(a.nodes, a.its[c]) IN Emit([a EXCEPT !.nodes = p.ns], [op |-> "next", c |-> c, r |-> p.r, v |-> p.v, inl |-> FALSE])
Do(a, o) ==
  CASE o.op = "mk" -> LET re == o.t \in {"able", "list"}
                          m == Len(a.objs) + 1
                      IN Emit([a EXCEPT !.nodes = Append(@, NewBase(o.i)), !.objs = Append(@, [re |-> re, i |-> o.i, n |-> Len(a.nodes) + 1, mat |-> FALSE])],
                              [op |-> "mk", o |-> m, re |-> re, steps |-> Steps(o.i), gen |-> TRUE])
    [] o.op \in {"filter", "sort"} ->
         LET b == NodeFor(a, o.src)
             m == Len(a.objs) + 1
             nn == IF o.op = "filter" THEN [t |-> "filter", src |-> b.n, f |-> o.f] ELSE [t |-> "sort", src |-> b.n, f |-> o.f, rev |-> o.rev, started |-> FALSE, left |-> <<>>]
         IN Emit([a EXCEPT !.nodes = Append(b.ns, nn), !.objs = Append(@, [re |-> FALSE, i |-> 0, n |-> Len(b.ns) + 1, mat |-> FALSE])],
                 [op |-> o.op, o |-> m, src |-> o.src, f |-> o.f, rev |-> o.rev])
    [] o.op = "iter" -> LET b == NodeFor(a, o.o) IN Emit([a EXCEPT !.nodes = b.ns, !.its = Append(@, b.n)], [op |-> "iter", c |-> Len(a.its) + 1, o |-> o.o, gen |-> FALSE, r |-> ""])
    [] o.op = "next" -> IF o.how = "in" THEN Emit(a, [op |-> "next", c |-> o.c, r |-> "sync", v |-> "", inl |-> TRUE]) ELSE Step(a, o.c)
    [] o.op = "par" -> Step(Step(a, o.c), o.d)
    [] o.op = "all" -> IF o.how = "in" THEN Emit(a, [op |-> "all", o |-> o.o, r |-> "sync", q |-> <<>>, v |-> "", inl |-> TRUE])
                       ELSE LET b == NodeFor(a, o.o)
                                d == Collect(b.ns, b.n, <<>>)
                            IN Emit([a EXCEPT !.nodes = d.ns, !.objs[o.o].mat = TRUE], [op |-> "all", o |-> o.o, r |-> IF d.r = "exc" THEN "exc" ELSE "item", q |-> IF d.r = "exc" THEN <<>> ELSE Vs(d.q), v |-> d.v, inl |-> FALSE])
    [] OTHER -> a
Can(a, o) ==
  CASE o.op = "mk" -> Len(a.objs) < MaxObjs
    [] o.op \in {"filter", "sort"} -> Len(a.objs) < MaxObjs /\ o.src <= Len(a.objs)
    [] o.op = "iter" -> o.o <= Len(a.objs) /\ Len(a.its) < MaxIts
    [] o.op = "next" -> o.c <= Len(a.its)
    [] o.op = "par" -> o.c < o.d /\ o.d <= Len(a.its) /\ Root(a.nodes, a.its[o.c]) # Root(a.nodes, a.its[o.d])
    [] o.op = "all" -> o.o <= Len(a.objs) /\ ~a.objs[o.o].mat
    [] o.op = "env" -> TRUE
    [] OTHER -> FALSE
\* the mechanism's answer, exploring only productive steps
Ops == [op : {"mk"}, t : Mks, i : Srcs] \cup [op : {"filter"} \cap Views, src : 1..MaxObjs, f : Fs, rev : {FALSE}, w : 1..W] \cup [op : {"sort"} \cap Views, src : 1..MaxObjs, f : Fs, rev : BOOLEAN]
       \cup [op : {"iter"}, o : 1..MaxObjs, how : {"a", "s"}] \cup [op : {"next"}, c : 1..MaxIts, how : Nexts, w : 1..W] \cup [op : {"par"}, c : 1..MaxIts, d : 1..MaxIts]
       \cup [op : {"all"}, o : 1..MaxObjs, how : Alls] \cup [op : {"env"}, e : Envs]
Cfgs == {[fam |-> "view"]}
Init == \E c \in Cfgs : s = Fresh(c) /\ h = <<c>>
Next == \E o \in Ops : Len(h) <= MaxLen /\ Can(s, o) /\ s' = Do(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
View == s
NoClauseViolated == s.bad = {}
EmitAll == PrintT(ToJson(h'))
EmitEnd == (Len(h) = MinEmit \/ ~ \E o \in Ops : Can(s, o)) => PrintT(ToJson(h))
============================================================================
