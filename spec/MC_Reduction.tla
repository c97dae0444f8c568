---------------------------- MODULE MC_Reduction ----------------------------
(* Every context up to N x M, every result the specification allows, and the *)
(* results of reducing those again: the concept lattice survives, and        *)
(* nothing reducible is left.                                                *)
EXTENDS Reduction
CONSTANTS N, M
VARIABLES c0, c, hist
Ctxs == UNION {UNION {{[o |-> [i \in 1..n |-> i], a |-> [j \in 1..m |-> 10 + j], r |-> f] :
               f \in [1..n -> SUBSET (11..(10 + m))]} : m \in 0..M} : n \in 0..N}
Keep(x, S) == LET idx == SetToSortSeq({i \in DOMAIN x.o : x.o[i] \in S}, <)
              IN [o |-> [k \in DOMAIN idx |-> x.o[idx[k]]], a |-> x.a, r |-> [k \in DOMAIN idx |-> x.r[idx[k]]]]
Results(op, x) == IF op = "reduce_attributes"
                  THEN {Transpose(y) : y \in {z \in {Keep(Transpose(x), S) : S \in SUBSET Atts(x)} : ReducedObjects(Transpose(x), z)}}
                  ELSE {y \in {Keep(x, S) : S \in SUBSET Objs(x)} : Outcome(op, x, y)}
Init == c0 \in Ctxs /\ c = c0 /\ hist = <<>>
Next == /\ Len(hist) < 3
        /\ \E op \in {"clarify_objects", "reduce_objects", "reduce_attributes"} :
             c' \in Results(op, c) /\ hist' = Append(hist, op)
        /\ UNCHANGED c0
\* there always is a result
Possible == \A op \in {"clarify_objects", "reduce_objects", "reduce_attributes"} : Results(op, c) # {}
\* the lattices are isomorphic.  Without the convention on full rows the bottom
\* (top) could differ; with it the numbers of concepts agree, and the concepts of
\* the reduced context are the restrictions of those of the original
Iso == /\ Cardinality(Intents(c)) = Cardinality(Intents(c0))
       /\ {B \cap Atts(c) : B \in Intents(c0)} = Intents(c)
       /\ {p[1] \cap Objs(c) : p \in Concepts(c0)} = {p[1] : p \in Concepts(c)}
\* reducing twice is reducing once
Idempotent == Len(hist) > 0 =>
   LET op == hist[Len(hist)] IN Outcome(op, c, c)
=============================================================================
