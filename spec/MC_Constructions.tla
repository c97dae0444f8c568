-------------------------- MODULE MC_Constructions --------------------------
(* Laws of the constructions, on every pair of small contexts.              *)
EXTENDS Constructions
CONSTANTS N, M, P
VARIABLES c, d
AllOver(o, a) == {[o |-> o, a |-> a, r |-> f] : f \in [1..Len(o) -> SUBSET Rng(a)]}
Pre(s, n) == SubSeq(s, 1, n)
G == <<"g", "h", "i">>  A == <<"a", "b", "e">>  Q == <<"x", "y", "z">>
Init == \E n \in 0..N, m \in 0..M, p \in 0..P :
           /\ c \in AllOver(Pre(G, n), Pre(A, m))
           /\ d \in AllOver(Pre(A, m), Pre(Q, p))
Next == FALSE /\ UNCHANGED <<c, d>>
Sp == <<>>
Laws ==
  LET k == Complementary(c, Sp)  z == Compound(c, Sp)  p == Product(c, d)
  IN /\ WellFormed(k) /\ WellFormed(z) /\ WellFormed(p.c) /\ p.ok
     /\ Transpose(Transpose(c)) = c /\ Pairs(Transpose(c)) = {<<x[2], x[1]>> : x \in Pairs(c)}
     /\ Cardinality(Pairs(c)) + Cardinality(Pairs(k)) = Len(c.o) * Len(c.a)
     /\ Pairs(z) = Pairs(c) \cup Pairs(k) /\ z.a = c.a \o k.a
     /\ Pairs(p.c) = {x \in Objs(c) \X Atts(d) : \E y \in Atts(c) : <<x[1], y>> \in Pairs(c) /\ <<y, x[2]>> \in Pairs(d)}
     \* product commutes with transposition
     /\ SameRelation(Transpose(p.c), Product(Transpose(d), Transpose(c)).c)
     /\ \A B \in SUBSET Atts(c) :
          LET f == FilterObjects(c, B, "and").c  g == FilterObjects(c, B, "or").c
          IN /\ Objs(f) = Ext(c, B) /\ Objs(g) = UNION {Ext(c, {x}) : x \in B}
             /\ SubContext(c, SetToSeq(B), Sp).ok
             /\ Pairs(SubContext(c, SetToSeq(B), Sp).c) = {x \in Pairs(c) : x[2] \in B}
     /\ RemoveEmptyObjects(c).c = FilterObjects(c, Atts(c), "or").c
     /\ SameRelation(c, d) => Objs(c) = Objs(d)
=============================================================================
