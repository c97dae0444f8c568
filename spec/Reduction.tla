------------------------------ MODULE Reduction -----------------------------
(* Clarification and reduction (fca/context.py).  Which of several equal     *)
(* rows represents them, and the order of the kept ones, is left open.       *)
EXTENDS FCA
\* d consists of objects of c with their rows, over the same attributes
PartOf(c, d) == /\ d.a = c.a /\ WellFormed(d) /\ Objs(d) \subseteq Objs(c)
                /\ \A i \in DOMAIN d.o : d.r[i] = RowOf(c, d.o[i])
Clarified(c, d) == PartOf(c, d) /\ Distinct(d.r) /\ Rng(d.r) = Rng(c.r)
ReducedObjects(c, d) == PartOf(c, d) /\ Distinct(d.r) /\ Rng(d.r) = IrreducibleRows(c)
ReducedAttributes(c, d) == ReducedObjects(Transpose(c), Transpose(d))
Outcome(op, c, d) == CASE op = "clarify_objects" -> Clarified(c, d)
                       [] op = "reduce_objects" -> ReducedObjects(c, d)
                       [] op = "reduce_attributes" -> WellFormed(d) /\ ReducedAttributes(c, d)
=============================================================================
