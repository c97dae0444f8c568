---------------------------- MODULE MC_Printing -----------------------------
(* What a printed form tells.  Contexts, many-valued and partial contexts    *)
(* over plain names print alike only if they are alike; implications print   *)
(* alike exactly if they have the same premise and add the same; a concept   *)
(* tells both of its sides unless one of them is empty.                      *)
EXTENDS Printing
CONSTANTS Names, Vals, N
VARIABLES kind, o, a
vars == <<kind, o, a>>
Ord == SetToSeq(Names)
Sh == [x \in Names \cup Vals |-> x]
Qu == [x \in Names \cup Vals |-> "'" \o x \o "'"]
Lists == UNION {{s \in [1..n -> Names] : Distinct(s)} : n \in 0..N}
Ctxs(p, q) == {[o |-> p, a |-> q, r |-> R] : R \in [DOMAIN p -> SUBSET Rng(q)]}
Mvs(p, q) == {[o |-> p, a |-> q, v |-> R] : R \in [DOMAIN p -> [DOMAIN q -> Vals]]}
Partials(p, q) == {[o |-> p, a |-> q, x |-> X, q |-> Q] : X \in [DOMAIN p -> SUBSET Rng(q)], Q \in [DOMAIN p -> SUBSET Rng(q)]}
OkPartials(p, q) == {z \in Partials(p, q) : \A i \in DOMAIN p : z.x[i] \subseteq z.q[i]}
Init == kind \in {"context", "many-valued", "partial", "implication", "concept"} /\ o \in Lists /\ a \in Lists
Next == UNCHANGED vars
\* all of one shape have texts of their own ...
Own(S, T(_)) == Cardinality({T(z) : z \in S}) = Cardinality(S)
\* ... and the text tells the shape
Heads == \A p, q \in Lists : (p # o \/ q # a) =>
            CASE kind = "context" -> \A c \in Ctxs(o, a), d \in Ctxs(p, q) : CtxText(c, Sh) # CtxText(d, Sh)
              [] OTHER -> TRUE
Tells ==
   CASE kind = "context" -> Own(Ctxs(o, a), LAMBDA z : CtxText(z, Sh))
     [] kind = "many-valued" -> Own(Mvs(o, a), LAMBDA z : MvText(z, Sh))
     [] kind = "partial" -> Own(OkPartials(o, a), LAMBDA z : PartialText(z, Sh))
     [] kind = "implication" ->
          \A C \in SUBSET Names, D \in SUBSET Names, n, k \in BOOLEAN :
             (ImpText(Rng(o), C, n, Sh, Ord) = ImpText(Rng(a), D, k, Sh, Ord))
             <=> (Rng(o) = Rng(a) /\ C \ Rng(o) = D \ Rng(a) /\ n = k)
     [] kind = "concept" ->
          \A E, I \in (SUBSET Names) \ {{}} :
             /\ (ConceptText(Rng(o), Rng(a), <<>>, Qu, Ord) = ConceptText(E, I, <<>>, Qu, Ord)) <=> (Rng(o) = E /\ Rng(a) = I)
             /\ ConceptText(Rng(o), Rng(a), <<<<"x", "y">>>>, Qu, Ord) # ConceptText(Rng(o), Rng(a), <<>>, Qu, Ord)
\* a context whose cells are all decided prints its rows as the context does
Decided == kind = "partial" => \A c \in Ctxs(o, a) :
              PartialText([o |-> o, a |-> a, x |-> c.r, q |-> c.r], Sh)
              = Join(Map1(a, Sh), ", ") \o "\n" \o Join(Map1(o, Sh), ", ") \o "\n"
                \o Cat([i \in DOMAIN o |-> "\n" \o Cat([j \in DOMAIN a |-> IF a[j] \in c.r[i] THEN "X" ELSE "."])])
Invariant == Tells /\ Heads /\ Decided
=============================================================================
