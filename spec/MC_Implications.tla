--------------------------- MODULE MC_Implications --------------------------
(* The semantics of implications over a small universe: laws that tie truth,*)
(* equality, partial examples and closures together.                         *)
EXTENDS Implications
CONSTANTS U
VARIABLES i, j
Sides == SUBSET U
All == [k : {"imp", "neg"}, p : Sides, c : Sides]
Init == i \in All /\ j \in All
Next == FALSE /\ UNCHANGED <<i, j>>
Pairsxq == {w \in Sides \X Sides : w[1] \subseteq w[2]}
\* equal implications are respected by the same sets and partial examples
EqualMeansSame == EqualImp(i, j) =>
   /\ \A S \in Sides : RespectedBy(i, S) <=> RespectedBy(j, S)
   /\ \A w \in Pairsxq : RespectedByPartial(i, w[1], w[2]) <=> RespectedByPartial(j, w[1], w[2])
\* a complete example is a partial one with both parts equal
CompleteExample == \A S \in Sides : RespectedBy(i, S) <=> RespectedByPartial(i, S, S)
\* a partial example respects an ordinary implication iff its largest completion
\* of the certain part does not force a refutation
Refutation == i.k = "imp" => \A w \in Pairsxq :
   RespectedByPartial(i, w[1], w[2]) <=> \E S \in Sides : w[1] \subseteq S /\ S \subseteq w[2] /\ (i.p \subseteq w[1] => Reduce(i) \subseteq S)
Equality == EqualImp(i, i) /\ (EqualImp(i, j) <=> EqualImp(j, i))
=============================================================================
