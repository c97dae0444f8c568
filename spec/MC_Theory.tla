----------------------------- MODULE MC_Theory -----------------------------
(* Bounded exhaustive validation of the theory module: every context with   *)
(* at most N objects and M attributes, and implication sets over them.      *)
EXTENDS FCA
CONSTANTS N, M, K
VARIABLES c, L
vars == <<c, L>>
Ctxs == UNION {UNION {{[o |-> [i \in 1..n |-> i], a |-> [j \in 1..m |-> j], r |-> f] :
               f \in [1..n -> SUBSET (1..m)]} : m \in 0..M} : n \in 0..N}
ValidImps(x) == {<<P, ClA(x, P)>> : P \in SUBSET Atts(x)} 
Init == c \in Ctxs /\ L \in {S \in SUBSET {<<P, ClA(c, P)>> : P \in {Q \in SUBSET Atts(c) : ClA(c, Q) # Q}} : Cardinality(S) <= K}
Next == FALSE /\ UNCHANGED vars
InvConcepts == L = {} => Concepts(c) = ConceptsByDefinition(c)
InvGalois == L = {} => /\ \A B \in SUBSET Atts(c) : ClA(c, B) = Itn(c, Ext(c, B)) /\ B \subseteq ClA(c, B) /\ ClA(c, ClA(c, B)) = ClA(c, B)
             /\ Transpose(Transpose(c)) = c
             /\ {p[1] : p \in Concepts(c)} = Intents(Transpose(c))
\* covers: their transitive closure is the order, and each is the transpose of the other
RECURSIVE UpSet(_, _)
UpSet(S, X) == LET Y == X \cup UNION {UpperCovers(S, p) : p \in X} IN IF Y = X THEN X ELSE UpSet(S, Y)
InvCovers == L = {} => LET S == Concepts(c) IN
   /\ \A p \in S : UpSet(S, {p}) = {p} \cup {q \in S : StrictlyBelow(p, q)}
   /\ \A p, q \in S : q \in UpperCovers(S, p) <=> p \in LowerCovers(S, q)
   /\ \A p, q \in S : q \in UpperCovers(S, p) <=> StrictlyBelow(p, q) /\ ~ \E s \in S : StrictlyBelow(p, s) /\ StrictlyBelow(s, q)
   /\ Cardinality({p \in S : UpperCovers(S, p) = {}}) = 1 /\ Cardinality({p \in S : LowerCovers(S, p) = {}}) = 1
   /\ \A p, q \in S : StrictlyBelow(p, q) <=> (p[1] \subseteq q[1] /\ p[1] # q[1])
InvClosure == \A B \in SUBSET Atts(c) : Cl(B, L) = ClByDefinition(B, L, Atts(c))
InvComplete == CompleteFor(c, L) <=> CompleteByDefinition(c, L)
InvBasis == LET R == RelativeBasis(c, L) IN
            /\ ExactFor(c, R \cup L)
            /\ IsRelativeBasis(c, L, R)
            /\ \A i \in R : ~ Entails((R \ {i}) \cup L, i)
            \* dropping or weakening a member is noticed
            /\ \A i \in R : ~ IsRelativeBasis(c, L, R \ {i})
            /\ \A P \in SUBSET Atts(c) : (<<P, ClA(c, P)>> \notin R) => ~ IsRelativeBasis(c, L, R \cup {<<P, ClA(c, P)>>})
InvReduce == L = {} => LET keep == {i \in DOMAIN c.o : c.r[i] \in IrreducibleRows(c) /\ \A k \in 1..i-1 : c.r[k] # c.r[i]}
                 idx == SetToSortSeq(keep, <)
                 d == [o |-> [k \in DOMAIN idx |-> c.o[idx[k]]], a |-> c.a, r |-> [k \in DOMAIN idx |-> c.r[idx[k]]]]
             IN Intents(d) = Intents(c) /\ IrreducibleRows(d) = Rng(d.r)
InvStability == L = {} =>
   /\ MapThenSumSet(LAMBDA B : GeneratingExtents(c, Ext(c, B), B), Intents(c)) = 2 ^ Len(c.o)
   /\ MapThenSumSet(LAMBDA B : GeneratingIntents(c, Ext(c, B), B), Intents(c)) = 2 ^ Len(c.a)
InvGreedy == L = {} => \A D \in GreedyFactors(c, Pairs(c)) :
               /\ ClA(c, D) = D \/ D = {} 
               /\ Pairs(c) # {} => \E p \in Rect(Ext(c, D), D) : p \in Pairs(c)
=============================================================================
