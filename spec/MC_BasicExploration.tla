------------------------- MODULE MC_BasicExploration ------------------------
(* Histories of basic exploration over small contexts.                       *)
EXTENDS BasicExploration, Json
CONSTANTS O, A, MaxO, MaxA, MaxConf, Depth
VARIABLES x, hist
Starts == {[o |-> o, a |-> a, r |-> r] : o \in {<<>>, <<"g">>}, a \in {<<"a">>, <<"a", "b">>}, r \in {<<>>, <<{}>>, <<{"a"}>>}}
Good == {c \in Starts : Len(c.r) = Len(c.o)}
Open(s) == [s EXCEPT !.oa = Canonical(s.c, s.ca), !.oo = Canonical(Transpose(s.c), s.co)]
Start(c) == Open([c |-> c, ca |-> <<>>, co |-> <<>>, oa |-> <<>>, oo |-> <<>>])
After(e) == LET r == Apply(x, e)
                y == [c |-> r.c, ca |-> r.ca, co |-> r.co, oa |-> x.oa, oo |-> x.oo]
            IN IF r.keep THEN y ELSE Open(y)
NewO == O \ Objs(x.c)
NewA == A \ Atts(x.c)
Ops == {[op |-> "confirm_a", i |-> i] : i \in DOMAIN x.oa} \cup {[op |-> "confirm_o", i |-> i] : i \in DOMAIN x.oo}
   \cup {[op |-> "counter_a", i |-> i, s |-> s, name |-> n] : i \in DOMAIN x.oa, s \in SUBSET Atts(x.c), n \in NewO}
   \cup {[op |-> "counter_o", i |-> i, s |-> s, name |-> n] : i \in DOMAIN x.oo, s \in SUBSET Objs(x.c), n \in NewA}
   \cup {[op |-> "add_object", s |-> s, name |-> n] : s \in SUBSET Atts(x.c), n \in NewO}
   \cup {[op |-> "add_attribute", s |-> s, name |-> n] : s \in SUBSET Objs(x.c), n \in NewA}
   \cup {[op |-> "edit_object", s |-> s, name |-> n] : s \in SUBSET Atts(x.c), n \in Objs(x.c)}
   \cup {[op |-> "edit_attribute", s |-> s, name |-> n] : s \in SUBSET Objs(x.c), n \in Atts(x.c)}
Init == x \in {Start(c) : c \in Good} /\ hist = <<[op |-> "start", c |-> x.c]>>
Next == \E e \in Ops : x' = After(e) /\ UNCHANGED hist
Small == Len(x.c.o) <= MaxO /\ Len(x.c.a) <= MaxA /\ Len(x.ca) <= MaxConf /\ Len(x.co) <= MaxConf
Invariant == /\ ContextRespects(x.c, x.ca, x.co)
             /\ OpenOK(x.c, x.ca, x.oa) /\ OpenOK(Transpose(x.c), x.co, x.oo)
             /\ WellFormed(x.c)
\* what is open can be confirmed or refuted, and a refutation is accepted
Progress == \A i \in DOMAIN x.oa : \A s \in SUBSET Atts(x.c) :
               (Refutes(s, x.oa[i]) /\ RespectsAll(s, x.ca)) =>
                  LET r == Apply(x, [op |-> "counter_a", i |-> i, s |-> s, name |-> "new"])
                  IN r.ok /\ ~ Holds(r.c, x.oa[i])
\* generation: implications are named, since their order is left open
Named(e) == IF e.op \in {"confirm_a", "counter_a"} THEN [imp |-> x.oa[e.i]] @@ e
            ELSE IF e.op \in {"confirm_o", "counter_o"} THEN [imp |-> x.oo[e.i]] @@ e ELSE e
Pick(S) == LET k == RandomElement({e.op : e \in S}) IN RandomElement({e \in S : e.op = k})
Random == Len(hist) < Depth /\ Len(x.c.o) <= MaxO /\ Len(x.c.a) <= MaxA /\ Ops # {}
          /\ \E e \in {Pick(Ops)} : x' = After(e) /\ hist' = Append(hist, Named(e))
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson(hist))
=============================================================================
