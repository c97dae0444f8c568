----------------------------- MODULE MC_Expert -----------------------------
(* Exploration with an expert who knows a domain: every question is answered *)
(* by confirmation if it is true of the domain, by an example of the domain   *)
(* refuting it otherwise.  It ends, and then exactly the implications of the  *)
(* domain follow from what was confirmed.                                     *)
EXTENDS ExplorationDB
CONSTANTS N, M
VARIABLES dom, x, asked
AttsM == [j \in 1..M |-> j]
Dom == {[o |-> [i \in 1..n |-> i], a |-> AttsM, r |-> r] : n \in 0..N, r \in UNION {[1..k -> SUBSET (1..M)] : k \in 0..N}}
Domains == {d \in Dom : WellFormed(d)}
Sub(d, K) == [o |-> SetToSortSeq(K, <), a |-> d.a, r |-> [i \in 1..Cardinality(K) |-> d.r[SetToSortSeq(K, <)[i]]]]
Open(c, bg) == [c |-> c, bg |-> bg, cond |-> <<"all">>, open |-> Canonical(c, bg)]
Init == /\ dom \in Domains
        /\ \E K \in SUBSET (1..Len(dom.o)) : x = Open(Sub(dom, K), <<>>)
        /\ asked = 0
Ask == \E i \in Rng(x.open) :
          /\ IF Holds(dom, i)
             THEN x' = LET r == Do(x, [op |-> "confirm", imps |-> <<i>>]) IN Open(r.c, r.bg)
             ELSE \E k \in DOMAIN dom.o : ~ Respects(dom.r[k], i) /\
                    LET r == Do(x, [op |-> "reject", imp |-> i, names |-> <<dom.o[k]>>, sets |-> <<dom.r[k]>>])
                    IN /\ Assert(r.ok, "a true counterexample is accepted")
                       /\ x' = Open(r.c, r.bg)
          /\ asked' = asked + 1
          /\ UNCHANGED dom
Spec == Init /\ [][Ask]_<<dom, x, asked>> /\ WF_<<dom, x, asked>>(Ask)
Done == x.open = <<>>
Ends == <>Done
Learned == Done => Equivalent(Rng(x.bg), StemBase(dom))
Sound == \A i \in Rng(x.bg) : Holds(dom, i)
\* every answer adds an example of the domain or rules out some set of attributes
Bounded == asked <= 2 ^ M + Len(dom.o)
=============================================================================
