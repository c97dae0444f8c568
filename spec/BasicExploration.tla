-------------------------- MODULE BasicExploration --------------------------
(* Basic exploration (fca/algorithms/exploration.py).  State of one          *)
(* exploration: context c, confirmed attribute and object implications ca,   *)
(* co (sequences), open ones oa, oo (sequences).  Implications are pairs     *)
(* <<premise, conclusion>>.                                                  *)
EXTENDS FCA

RespectsAll(S, L) == \A i \in Rng(L) : Respects(S, i)
ContextRespects(c, ca, co) == /\ \A k \in DOMAIN c.r : RespectsAll(c.r[k], ca)
                              /\ \A x \in Atts(c) : RespectsAll(Ext(c, {x}), co)
WithObject(c, name, S) == [o |-> Append(c.o, name), a |-> c.a, r |-> Append(c.r, S \cap Atts(c))]
WithAttribute(c, name, X) ==
   [o |-> c.o, a |-> Append(c.a, name), r |-> [i \in DOMAIN c.o |-> IF c.o[i] \in X THEN c.r[i] \cup {name} ELSE c.r[i]]]
SetObject(c, name, S) == [c EXCEPT !.r = [i \in DOMAIN c.o |-> IF c.o[i] = name THEN S ELSE c.r[i]]]
SetAttribute(c, name, X) ==
   [c EXCEPT !.r = [i \in DOMAIN c.o |-> IF c.o[i] \in X THEN c.r[i] \cup {name} ELSE c.r[i] \ {name}]]
Refutes(S, i) == Prem(i) \subseteq S /\ ~ (Conc(i) \subseteq S)

No(x) == [ok |-> FALSE, c |-> x.c, ca |-> x.ca, co |-> x.co, keep |-> TRUE]
To(x, d) == [ok |-> TRUE, c |-> d, ca |-> x.ca, co |-> x.co, keep |-> FALSE]
\* the outcome of an operation: accepted or not, and the new context and
\* confirmed implications; keep: the open implications stay as they are
Apply(x, e) ==
   CASE e.op = "confirm_a" -> IF e.i \notin DOMAIN x.oa THEN No(x)
                              ELSE [To(x, x.c) EXCEPT !.ca = Append(@, x.oa[e.i])]
     [] e.op = "confirm_o" -> IF e.i \notin DOMAIN x.oo THEN No(x)
                              ELSE [To(x, x.c) EXCEPT !.co = Append(@, x.oo[e.i])]
     [] e.op = "counter_a" -> IF e.i \notin DOMAIN x.oa \/ ~ Refutes(e.s, x.oa[e.i]) \/ ~ RespectsAll(e.s, x.ca)
                              THEN No(x) ELSE To(x, WithObject(x.c, e.name, e.s))
     [] e.op = "counter_o" -> IF e.i \notin DOMAIN x.oo \/ ~ Refutes(e.s, x.oo[e.i]) \/ ~ RespectsAll(e.s, x.co)
                              THEN No(x) ELSE To(x, WithAttribute(x.c, e.name, e.s))
     [] e.op = "add_object" -> IF ~ RespectsAll(e.s, x.ca) THEN No(x) ELSE To(x, WithObject(x.c, e.name, e.s))
     [] e.op = "add_attribute" -> IF ~ RespectsAll(e.s, x.co) THEN No(x) ELSE To(x, WithAttribute(x.c, e.name, e.s))
     [] e.op = "edit_object" ->
          IF e.name \notin Objs(x.c) \/ ~ (e.s \subseteq Atts(x.c)) THEN No(x)
          ELSE LET d == SetObject(x.c, e.name, e.s) IN IF ContextRespects(d, x.ca, x.co) THEN To(x, d) ELSE No(x)
     [] e.op = "edit_attribute" ->
          IF e.name \notin Atts(x.c) \/ ~ (e.s \subseteq Objs(x.c)) THEN No(x)
          ELSE LET d == SetAttribute(x.c, e.name, e.s) IN IF ContextRespects(d, x.ca, x.co) THEN To(x, d) ELSE No(x)
     [] e.op = "look" -> [No(x) EXCEPT !.ok = TRUE]

Apart(i) == <<i[1], i[2] \ i[1]>>
ApartSet(L) == {Apart(i) : i \in L}
\* the open implications that go with a state
OpenOK(c, conf, open) == /\ ExactFor(c, Rng(conf) \cup Rng(open))
                         /\ ApartSet(Rng(conf)) \cap ApartSet(Rng(open)) = {}
                         /\ Distinct(open)
Canonical(c, conf) == SetToSeq({i \in StemBase(c) : Apart(i) \notin ApartSet(Rng(conf))})
=============================================================================
