---------------------------- MODULE Implications ----------------------------
(* Implications as values and as live objects (fca/implication.py), closure *)
(* under a list of implications (fca/algorithms/closure_operators.py) and    *)
(* covers (fca/algorithms/implication_covers.py).                            *)
(* An implication is a record [k, p, c]: kind "imp" or "neg" (a unit         *)
(* implication is an ordinary one), premise and conclusion.                  *)
EXTENDS FCA

Reduce(i) == i.c \ i.p
\* respected by a set
RespectedBy(i, S) == IF i.k = "neg" THEN ~ (i.p \subseteq S) \/ Reduce(i) \cap S = {}
                     ELSE ~ (i.p \subseteq S) \/ Reduce(i) \subseteq S
\* respected by a partial example with certain part x and possible part q
RespectedByPartial(i, x, q) == IF i.k = "neg" THEN ~ (i.p \subseteq x) \/ Reduce(i) \cap q = {}
                               ELSE ~ (i.p \subseteq x) \/ Reduce(i) \subseteq q
EqualImp(i, j) == i.k = j.k /\ i.p = j.p /\ Reduce(i) = Reduce(j)

\* parsing: the text is given as its parts, how they are spaced is irrelevant
Parsed(p, c) == [k |-> "imp", p |-> p, c |-> c]

\* lists of implications <<premise, conclusion>>: no member follows from the
\* other members (a repeated member follows from its twin)
IrredundantList(s) == \A i \in DOMAIN s : ~ Entails({s[j] : j \in DOMAIN s \ {i}}, s[i])
=============================================================================
