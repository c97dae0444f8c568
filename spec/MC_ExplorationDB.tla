-------------------------- MODULE MC_ExplorationDB --------------------------
(* Histories of an exploration database over small contexts: all for model   *)
(* checking, random ones for replay into the implementation.                 *)
EXTENDS ExplorationDB
CONSTANTS O, A, MaxO, MaxA, MaxBg, Depth
VARIABLES x, hist
Starts == {[o |-> o, a |-> a, r |-> r] : o \in {<<>>, <<"g">>, <<"g", "h">>}, a \in {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>},
             r \in {<<>>, <<{}>>, <<{"a"}>>, <<{"a", "b"}, {"b"}>>, <<{"a", "c"}, {}>>}}
Good == {c \in Starts : WellFormed(c) /\ Len(c.o) <= MaxO /\ Len(c.a) <= MaxA}
Open(c, bg) == [c |-> c, bg |-> bg, cond |-> <<"all">>, open |-> Canonical(c, bg)]
NewO == O \ Objs(x.c)
NewA == A \ Atts(x.c)
Valid == {<<P, C>> \in (SUBSET Atts(x.c)) \X (SUBSET Atts(x.c)) : C # {} /\ C \cap P = {} /\ Holds(x.c, <<P, C>>)}
Free == Atts(x.c) \ Mentioned(x.bg)
Confirms == {[op |-> "confirm", imps |-> <<i>>] : i \in Rng(x.open)}
   \cup {[op |-> "confirm", imps |-> <<i, j>>] : i, j \in Rng(x.open)}
   \cup {[op |-> "confirm", imps |-> <<i>>] : i \in Valid}
Rejects == {[op |-> "reject", imp |-> i, names |-> <<n>>, sets |-> <<s>>] : i \in Rng(x.open), n \in O, s \in SUBSET Atts(x.c)}
Ops == Confirms \cup Rejects
   \cup {[op |-> "unconfirm", imp |-> i] : i \in Rng(x.bg) \cup {<<{}, {"none"}>>}}
   \cup {[op |-> "add_example", name |-> n, s |-> s] : n \in O, s \in SUBSET Atts(x.c)}
   \cup {[op |-> "delete_example", name |-> n] : n \in O}
   \cup {[op |-> "edit_example", name |-> n, old |-> m, s |-> s] : n \in O, m \in Objs(x.c), s \in SUBSET Atts(x.c)}
   \cup {[op |-> "add_attribute", name |-> n, s |-> s] : n \in A, s \in SUBSET Objs(x.c)}
   \cup {[op |-> "delete_attribute", name |-> n] : n \in Free}
   \cup {[op |-> "edit_attribute", name |-> n, old |-> m, s |-> s] : n \in A, m \in Free, s \in SUBSET Objs(x.c)}
   \cup {[op |-> "edit_attribute", name |-> m, old |-> m, s |-> s] : m \in Atts(x.c), s \in SUBSET Objs(x.c)}
   \cup {[op |-> "touch", name |-> n, s |-> s] : n \in NewO, s \in {S \in SUBSET Atts(x.c) : RespectsAll(S, x.bg)}}
   \cup {[op |-> "look"], [op |-> "spoil"]}
After(e) == LET r == Do(x, e) IN IF r.ok THEN Open(r.c, r.bg) ELSE x
Init == x \in {Open(c, <<>>) : c \in Good} /\ hist = <<[op |-> "start", c |-> x.c]>>
Next == \E e \in Ops : x' = After(e) /\ UNCHANGED hist
Small == Len(x.c.o) <= MaxO /\ Len(x.c.a) <= MaxA /\ Len(x.bg) <= MaxBg
Invariant == /\ WellFormed(x.c) /\ BackgroundOK(x)
             /\ IsRelativeBasis(x.c, Rng(x.bg), Rng(x.open)) /\ Distinct(x.open)
             /\ ExactFor(x.c, Rng(x.bg) \cup Rng(x.open))
             /\ \A i \in Rng(x.open) : ~ Entails(Rng(x.bg), i)
\* what is confirmed stays valid whatever happens later, unless it is taken back
Kept == [][\A i \in Rng(x'.bg) : Holds(x'.c, i)]_x
Pick(S) == LET k == RandomElement({e.op : e \in S}) IN RandomElement({e \in S : e.op = k})
Random == Len(hist) < Depth /\ Len(x.c.o) <= MaxO /\ Len(x.c.a) <= MaxA
          /\ \E e \in {Pick(Ops)} : x' = After(e) /\ hist' = Append(hist, e)
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson(hist))
=============================================================================
