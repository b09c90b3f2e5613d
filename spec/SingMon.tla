------------------------------ MODULE SingMon -----------------------------
(* C23: singletons.  cfg.defs: the default mode of each class 1..4.         *)
(*  call k t c f      thread t constructs class c; f: flag of the call      *)
(*  init k t i c      __init__ for call k begins, on object number i        *)
(*  end k i o         ... ends; o = "ok" or what it raises                  *)
(*  ret k o i mode c  the construction ends: "ok" and object, its mode as   *)
(*                    its members show it and its class, or what it raised  *)
(*  quiet             every thread did all it can                           *)
EXTENDS Lib
Init0(cfg) == [defs |-> cfg.defs, call |-> Empty, made |-> Empty, run |-> Empty, fail |-> Empty, out |-> {}]
Mode(st, c, f) == IF f = "dflt" THEN st.defs[c] ELSE IF f \in {"sync+", "asyn-"} THEN "sync" ELSE "async"
Key(st, k) == <<st.call[k].c, Mode(st, st.call[k].c, st.call[k].f)>>
Why(st, e) ==
  CASE e.op = "call" -> Flag(e.k \in DOMAIN st.call, "harness: call twice")
    [] e.op = "init" ->
         Flag(e.k \notin DOMAIN st.call \/ e.k \in st.out, "__init__ ran for a construction that is over") \cup
         (IF e.k \notin DOMAIN st.call THEN {}
          ELSE LET x == Key(st, e.k) IN
               Flag(x \in DOMAIN st.made, "a second instance of a class and mode") \cup
               Flag(x \in Range(st.run), "two instances of a class and mode are initialised at once") \cup
               Flag(e.k \in DOMAIN st.run, "__init__ ran twice for one construction") \cup
               Flag(e.c # x[1], "an instance of another class") \cup
               Flag(e.t # st.call[e.k].t, "initialised in another thread"))
    [] e.op = "end" -> Flag(e.k \notin DOMAIN st.run, "harness: end without init")
    [] e.op = "ret" ->
         LET x == Key(st, e.k) IN
         IF st.call[e.k].f = "both" THEN Flag(e.o # "E:TooManyFlags", "contradictory flags were not refused")
         ELSE IF e.o = "ok"
         THEN Flag(x \notin DOMAIN st.made, "an instance was given before it was initialised") \cup
              Flag(x \in DOMAIN st.made /\ st.made[x] # e.i, "not the instance of this class and mode") \cup
              Flag(e.mode # x[2], "the instance has another mode than the one asked for") \cup
              Flag(e.c # x[1], "an instance of another class")
         ELSE Flag(GetOr(st.fail, e.k, "") # e.o, "construction failed though its __init__ did not")
    [] e.op = "quiet" -> Flag(st.run = Empty /\ DOMAIN st.call \ st.out # {}, "a construction never ends")
    [] OTHER -> {"unexpected event " \o e.op}
After(st, e) ==
  CASE e.op = "call" -> [st EXCEPT !.call = Put(@, e.k, [c |-> e.c, f |-> e.f, t |-> e.t])]
    [] e.op = "init" -> [st EXCEPT !.run = Put(@, e.k, Key(st, e.k))]
    [] e.op = "end" -> [st EXCEPT !.run = Del(@, e.k), !.made = IF e.o = "ok" THEN Put(@, Key(st, e.k), e.i) ELSE @, !.fail = IF e.o = "ok" THEN @ ELSE Put(@, e.k, e.o)]
    [] e.op = "ret" -> [st EXCEPT !.out = @ \cup {e.k}]
    [] OTHER -> st
============================================================================
