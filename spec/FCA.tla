-------------------------------- MODULE FCA --------------------------------
(***************************************************************************)
(* The mathematics of Formal Concept Analysis that artreven/fca computes   *)
(* with: contexts, derivation, concepts, the concept order, implications,  *)
(* closures, canonical and relative bases, reduction, factors, stability.  *)
(*                                                                         *)
(* A context is a record [o |-> Seq(Id), a |-> Seq(Id), r |-> Seq(SUBSET   *)
(* Id)]: its object names and attribute names in order, and per object the *)
(* set of attributes it has.  Names are arbitrary TLC values (integers in  *)
(* most models and traces, strings where spelling matters).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Folds

Rng(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Rng(s)) = Len(s)

(************************* contexts and derivation *************************)
Objs(c) == Rng(c.o)
Atts(c) == Rng(c.a)
WellFormed(c) == /\ Len(c.o) = Len(c.r)
                 /\ Distinct(c.o) /\ Distinct(c.a)
                 /\ \A i \in DOMAIN c.r : c.r[i] \subseteq Atts(c)
Pairs(c) == UNION {{<<c.o[i], x>> : x \in c.r[i]} : i \in DOMAIN c.o}
\* intent of one object / extent of one attribute
RowOf(c, g) == UNION {c.r[i] : i \in {j \in DOMAIN c.o : c.o[j] = g}}
\* (TLCEval is the identity; it only makes TLC evaluate a set once)
Ext(c, B) == TLCEval({c.o[i] : i \in {j \in DOMAIN c.o : B \subseteq c.r[j]}})
Itn(c, X) == TLCEval({x \in Atts(c) : \A i \in DOMAIN c.o : c.o[i] \in X => x \in c.r[i]})
ClA(c, B) == TLCEval({x \in Atts(c) : \A i \in DOMAIN c.o : B \subseteq c.r[i] => x \in c.r[i]})
ClO(c, X) == Ext(c, Itn(c, X))
Transpose(c) == [o |-> c.a, a |-> c.o, r |-> [j \in DOMAIN c.a |-> Ext(c, {c.a[j]})]]
SameRelation(c, d) == Objs(c) = Objs(d) /\ Atts(c) = Atts(d) /\ Pairs(c) = Pairs(d)

(******************************** concepts *********************************)
\* the intents: intersections of rows, and the set of all attributes
Intents(c) == FoldLeft(LAMBDA S, R : TLCEval(S \cup {x \cap R : x \in S}), {Atts(c)}, c.r)
Concepts(c) == {<<Ext(c, B), B>> : B \in Intents(c)}
\* the same by definition, for model checking the equivalence
ConceptsByDefinition(c) ==
   {p \in (SUBSET Objs(c)) \X (SUBSET Atts(c)) : p[1] = Ext(c, p[2]) /\ p[2] = Itn(c, p[1])}
\* order on concepts given as <<extent, intent>> (or records with both), by intents
StrictlyBelow(p, q) == q[2] \subseteq p[2] /\ q[2] # p[2]       \* p < q
UpperCovers(S, p) == LET up == {q \in S : StrictlyBelow(p, q)}
                     IN {q \in up : ~ \E s \in up : StrictlyBelow(s, q)}
LowerCovers(S, p) == LET dn == {q \in S : StrictlyBelow(q, p)}
                     IN {q \in dn : ~ \E s \in dn : StrictlyBelow(q, s)}

(****************************** implications *******************************)
\* an implication is <<premise, conclusion>>; conclusions may repeat the premise
Prem(i) == i[1]
Conc(i) == i[2]
Respects(S, i) == Prem(i) \subseteq S => Conc(i) \subseteq S
Holds(c, i) == \A k \in DOMAIN c.r : Respects(c.r[k], i)
SameImp(i, j) == Prem(i) = Prem(j) /\ Conc(i) \ Prem(i) = Conc(j) \ Prem(j)
\* least superset of B closed under the set of implications L
RECURSIVE Cl(_, _)
Cl(B, L) == LET N == TLCEval(B \cup UNION {Conc(i) : i \in {j \in L : Prem(j) \subseteq B}})
            IN IF N = B THEN B ELSE Cl(N, L)
IsClosed(B, L) == \A i \in L : Respects(B, i)
ClByDefinition(B, L, M) == LET S == {X \in SUBSET M : B \subseteq X /\ IsClosed(X, L)}
                           IN CHOOSE X \in S : \A Y \in S : X \subseteq Y
Entails(L, i) == Conc(i) \subseteq Cl(Prem(i), L)
EntailsAll(L, K) == \A i \in K : Entails(L, i)
Equivalent(L, K) == EntailsAll(L, K) /\ EntailsAll(K, L)
Irredundant(L) == \A i \in L : ~ Entails(L \ {i}, i)

\* premises of the canonical basis relative to L (L = {} : pseudo-intents),
\* by the recursive definition, level by level
PseudoIntents(c, L) ==
   FoldLeft(LAMBDA P, k :
              TLCEval(P \cup {B \in kSubset(k, Atts(c)) :
                        /\ ClA(c, B) # B
                        /\ IsClosed(B, L)
                        /\ \A Q \in P : (Q \subseteq B /\ Q # B) => ClA(c, Q) \subseteq B}),
            {}, [k \in 1..(Cardinality(Atts(c)) + 1) |-> k - 1])
RelativeBasis(c, L) == {<<P, ClA(c, P)>> : P \in PseudoIntents(c, L)}
StemBase(c) == RelativeBasis(c, {})

\* L is complete for c: every set closed under L is an intent.  Checking the
\* one-element extensions of the intents (and the empty set) is enough.
CompleteFor(c, L) ==
   /\ ClA(c, {}) \subseteq Cl({}, L)
   /\ \A B \in Intents(c) : \A x \in Atts(c) \ B : ClA(c, B \cup {x}) \subseteq Cl(B \cup {x}, L)
SoundFor(c, L) == \A i \in L : Holds(c, i)
ExactFor(c, L) == SoundFor(c, L) /\ CompleteFor(c, L)
CompleteByDefinition(c, L) == \A B \in SUBSET Atts(c) : IsClosed(B, L) => ClA(c, B) = B

\* Recognising the canonical basis relative to L without enumerating subsets;
\* MC_Theory checks that it agrees with RelativeBasis.
IsRelativeBasis(c, L, K) ==
   /\ \A i \in K : /\ Prem(i) \subseteq Atts(c)
                   /\ Prem(i) \cup Conc(i) = ClA(c, Prem(i))
                   /\ Prem(i) # ClA(c, Prem(i))
                   /\ IsClosed(Prem(i), L)
   /\ \A i, j \in K : (Prem(i) \subseteq Prem(j) /\ Prem(i) # Prem(j)) => Conc(i) \subseteq Prem(j)
   /\ CompleteFor(c, L \cup K)

(************************ clarification and reduction **********************)
\* a row is reducible if it is the intersection of the strictly larger rows;
\* the empty intersection does not count, so a full row stays
ReducibleRow(c, R) ==
   LET S == {c.r[i] : i \in {j \in DOMAIN c.r : R \subseteq c.r[j] /\ c.r[j] # R}}
   IN S # {} /\ R = {x \in Atts(c) : \A T \in S : x \in T}
IrreducibleRows(c) == {R \in Rng(c.r) : ~ ReducibleRow(c, R)}

(************************** partial contexts *******************************)
\* a partial context is [o, a, x, q]: certain and possible rows
PartialOK(p) == Len(p.x) = Len(p.o) /\ Len(p.q) = Len(p.o) /\
                \A i \in DOMAIN p.o : p.x[i] \subseteq p.q[i]
\* largest conclusion not refuted by a partial object
XQ(p, B) == {y \in Rng(p.a) : \A i \in DOMAIN p.o : B \subseteq p.x[i] => y \in p.q[i]}
RefutedBy(x, q, i) == Prem(i) \subseteq x /\ ~ (Conc(i) \subseteq q)
Refuted(p, i) == \E k \in DOMAIN p.o : RefutedBy(p.x[k], p.q[k], i)
CompletedX(x, L) == Cl(x, L)
CompletedQ(x, q, L) == {y \in q : y \in Cl(x, L) \/ Cl(Cl(x, L) \cup {y}, L) \subseteq q}
Completable(p, L) == \A i \in DOMAIN p.o : Cl(p.x[i], L) \subseteq p.q[i]
Complete(p, L) == [p EXCEPT !.x = [i \in DOMAIN p.o |-> CompletedX(p.x[i], L)],
                            !.q = [i \in DOMAIN p.o |-> CompletedQ(p.x[i], p.q[i], L)]]

(******************************* factors ***********************************)
Rect(X, B) == X \X B
\* all concepts the greedy construction can end in, starting from the closed
\* set D with value V, when U is still to be covered (ties are free choices)
RECURSIVE GreedyFrom(_, _, _, _)
GreedyFrom(c, U, D, V) ==
   LET gain == TLCEval([y \in Atts(c) \ D |-> LET X == Ext(c, D \cup {y}) IN
                   LET B == Itn(c, X) IN Cardinality({p \in U : p[1] \in X /\ p[2] \in B})])
       best == IF DOMAIN gain = {} THEN 0 ELSE Max({gain[y] : y \in DOMAIN gain})
   IN IF best > V
      THEN UNION {GreedyFrom(c, U, E, best) : E \in {ClA(c, D \cup {y}) : y \in {z \in DOMAIN gain : gain[z] = best}}}
      ELSE {D}
GreedyFactors(c, U) == GreedyFrom(c, U, {}, 0)

(****************************** stability **********************************)
\* number of subsets of the extent (intent) that generate the concept
GeneratingExtents(c, X, B) == Cardinality({Y \in SUBSET X : Itn(c, Y) = B})
GeneratingIntents(c, X, B) == Cardinality({Y \in SUBSET B : Ext(c, Y) = X})
=============================================================================
