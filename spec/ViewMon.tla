------------------------------ MODULE ViewMon -----------------------------
(* C17/C18: iterables, iterators, filters and sorters.                      *)
(* A source is a sequence of steps [x, v, p, k]: x: raises v, else yields   *)
(* item v; p[f]: what predicate f says of the item ("t", "f" or an          *)
(* exception), k[f]: <<key, exception or "">> of key function f.            *)
(*  mk o re steps gen    object o: restartable (re) or single pass; gen: an *)
(*                       exception ends the source                          *)
(*  filter o src f / sort o src f rev       object o is a view of src       *)
(*  noview src           a view of src was refused                          *)
(*  iter c o gen r       iterator c of o; gen: a generator of its own;      *)
(*                       r: "" or the exception                             *)
(*  next c r v           r: item, stop, exc or sync (refused: loop running) *)
(*                       inl: called synchronously inside a running loop   *)
(*  all o q r v          everything (left) of o; r: item (q), exc or sync   *)
EXTENDS Lib
Init0(cfg) == [runs |-> Empty, objs |-> Empty, its |-> Empty, n |-> 0]
Base(steps, gen) == [t |-> "base", steps |-> steps, gen |-> gen, pos |-> 1]
\* --- what a view yields
Passing(s, f) == s.p[f] = "t"
\* stable order: an element's rank is the number of elements that come before it
Before(q, f, rev, i, j) == LET a == q[i].k[f][1]
                               b == q[j].k[f][1]
                           IN IF rev THEN a > b \/ (a = b /\ i < j) ELSE a < b \/ (a = b /\ i < j)
Sorted(q, f, rev) == [m \in 1..Len(q) |-> q[CHOOSE i \in 1..Len(q) : Cardinality({j \in 1..Len(q) : j # i /\ Before(q, f, rev, j, i)}) = m - 1]]
KeyFails(q, f) == {q[i].k[f][2] : i \in {j \in 1..Len(q) : q[j].k[f][2] # ""}}
Nothing == [x |-> FALSE, v |-> "", p |-> <<>>, k |-> <<>>]
RECURSIVE Pull(_, _)
RECURSIVE Drain(_, _, _)
\* -> [runs, r, v (a set for exc), s]
Pull(runs, n) ==
  LET a == runs[n]
  IN CASE a.t = "base" ->
            IF a.pos > Len(a.steps) THEN [runs |-> runs, r |-> "stop", v |-> {}, s |-> Nothing]
            ELSE LET s == a.steps[a.pos]
                 IN [runs |-> [runs EXCEPT ![n].pos = IF s.x /\ a.gen THEN Len(a.steps) + 1 ELSE @ + 1],
                     r |-> IF s.x THEN "exc" ELSE "item", v |-> {s.v}, s |-> s]
       [] a.t = "filter" ->
            LET p == Pull(runs, a.src)
            IN IF p.r # "item" \/ Passing(p.s, a.f) THEN p
               ELSE IF p.s.p[a.f] = "f" THEN Pull(p.runs, n)
               ELSE [p EXCEPT !.r = "exc", !.v = {p.s.p[a.f]}]
       [] a.t = "sort" ->
            IF ~a.ready THEN
              LET d == Drain(runs, a.src, <<>>)
                  bad == KeyFails(d.q, a.f)
              IN IF d.r = "exc" THEN [runs |-> [d.runs EXCEPT ![n].ready = TRUE], r |-> "exc", v |-> d.v, s |-> Nothing]
                 ELSE IF bad # {} THEN [runs |-> [d.runs EXCEPT ![n].ready = TRUE], r |-> "exc", v |-> bad, s |-> Nothing]
                 ELSE Pull([d.runs EXCEPT ![n].ready = TRUE, ![n].buf = Sorted(d.q, a.f, a.rev)], n)
            ELSE IF a.buf = <<>> THEN [runs |-> runs, r |-> "stop", v |-> {}, s |-> Nothing]
            ELSE [runs |-> [runs EXCEPT ![n].buf = Tail(@)], r |-> "item", v |-> {Head(a.buf).v}, s |-> Head(a.buf)]
Drain(runs, n, q) ==
  LET p == Pull(runs, n)
  IN IF p.r = "item" THEN Drain(p.runs, n, Append(q, p.s)) ELSE [runs |-> p.runs, r |-> p.r, v |-> p.v, q |-> q]
Vs(q) == [i \in 1..Len(q) |-> q[i].v]
\* a run of object o: its own, or a new one if it is restartable
RunOf(st, o) == IF st.objs[o].re THEN st.n + 1 ELSE st.objs[o].run
WithRun(st, o) == IF st.objs[o].re THEN Put(st.runs, st.n + 1, Base(st.objs[o].steps, st.objs[o].gen)) ELSE st.runs
Sorter(st, o) == ~st.objs[o].re /\ st.runs[st.objs[o].run].t = "sort"
\* all of the sorter's items are out
Done(st, n) == Pull(st.runs, n).r = "stop"
\* n is, or draws from, a sorter that has given everything away: that may be answered by RuntimeError
RECURSIVE OnConsumed(_, _)
OnConsumed(st, n) == \/ st.runs[n].t = "sort" /\ Done(st, n)
                     \/ st.runs[n].t # "base" /\ OnConsumed(st, st.runs[n].src)
All(st, o) == Drain(WithRun(st, o), RunOf(st, o), <<>>)
Fits(st, e) == LET d == All(st, e.o) IN IF e.r = "exc" THEN d.r = "exc" /\ e.v \in d.v ELSE d.r = "stop" /\ e.q = Vs(d.q)
Cached(st, e) == e.r = "item" /\ st.objs[e.o].mat = <<e.q>>
Why(st, e) ==
  CASE e.op \in {"mk", "filter", "sort"} -> {}
    [] e.op = "noview" -> Flag(~Sorter(st, e.src) \/ ~Done(st, st.objs[e.src].run), "a view was refused")
    [] e.op = "iter" -> Flag(e.r # "" /\ ~(Sorter(st, e.o) /\ Done(st, st.objs[e.o].run)), "an iterator was refused")
    [] e.op = "next" ->
         LET c == st.its[e.c]
             p == Pull(st.runs, c.run)
         IN IF e.r = "sync" THEN Flag(~e.inl, "refused although no loop is running")
            ELSE IF e.inl /\ ~(c.broken /\ e.r = "stop") THEN {"synchronous iteration inside a running loop was not refused"}
            ELSE IF c.broken /\ e.r = "stop" THEN {}
            ELSE IF e.r = "exc" /\ p.r = "stop" /\ e.v = "E:RuntimeError" /\ OnConsumed(st, c.run) THEN {}
            ELSE Flag(e.r # p.r, "expected " \o p.r \o ", got " \o e.r) \cup Flag(e.r = p.r /\ e.r # "stop" /\ e.v \notin p.v, "wrong " \o e.r)
    [] e.op = "all" ->
         IF e.r = "sync" THEN Flag(~e.inl, "refused although no loop is running")
         ELSE IF e.inl THEN {"synchronous iteration inside a running loop was not refused"}
         ELSE IF Fits(st, e) \/ Cached(st, e) THEN {}
         ELSE IF e.r = "exc" /\ e.v = "E:RuntimeError" /\ ~st.objs[e.o].re /\ OnConsumed(st, st.objs[e.o].run) /\ All(st, e.o).q = <<>> THEN {}
         ELSE {"the whole of the object is not what its source holds"}
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "mk" -> IF e.re THEN [st EXCEPT !.objs = Put(@, e.o, [re |-> TRUE, steps |-> e.steps, gen |-> e.gen, run |-> 0, mat |-> <<>>])]
                      ELSE [st EXCEPT !.n = @ + 1, !.runs = Put(@, st.n + 1, Base(e.steps, e.gen)),
                                      !.objs = Put(@, e.o, [re |-> FALSE, steps |-> <<>>, gen |-> FALSE, run |-> st.n + 1, mat |-> <<>>])]
    [] e.op \in {"filter", "sort"} ->
         LET rr == WithRun(st, e.src)
             sr == RunOf(st, e.src)
             m == st.n + 2
             new == IF e.op = "filter" THEN [t |-> "filter", src |-> sr, f |-> e.f]
                    ELSE [t |-> "sort", src |-> sr, f |-> e.f, rev |-> e.rev, ready |-> FALSE, buf |-> <<>>]
         IN [st EXCEPT !.n = m, !.runs = Put(rr, m, new), !.objs = Put(@, e.o, [re |-> FALSE, steps |-> <<>>, gen |-> FALSE, run |-> m, mat |-> <<>>])]
    [] e.op = "iter" ->
         IF e.r # "" THEN st
         ELSE [st EXCEPT !.n = @ + 1, !.runs = WithRun(st, e.o), !.its = Put(@, e.c, [run |-> RunOf(st, e.o), gen |-> e.gen, broken |-> FALSE])]
    [] e.op = "next" ->
         LET c == st.its[e.c]
         IN IF e.r = "sync" THEN [st EXCEPT !.its[e.c].broken = c.gen]
            ELSE IF c.broken /\ e.r = "stop" THEN st
            ELSE [st EXCEPT !.runs = Pull(@, c.run).runs, !.its[e.c].broken = @ \/ (e.r # "item" /\ c.gen)]
    [] e.op = "all" ->
         IF e.r = "sync" \/ ~Fits(st, e) THEN st
         ELSE [st EXCEPT !.runs = IF st.objs[e.o].re THEN @ ELSE All(st, e.o).runs, !.objs[e.o].mat = IF e.r = "item" THEN <<e.q>> ELSE @]
    [] OTHER -> st
============================================================================
