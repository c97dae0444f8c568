------------------------------- MODULE Diagram ------------------------------
(***************************************************************************)
(* Drawings of concept lattices.  A drawing has nodes 1..n (positions in   *)
(* the sequence L of concepts <<extent, intent>>), a sequence of edges     *)
(* <<parent, child>>, and labels: obj and att map a node to the names (or  *)
(* the number of names) drawn at it.                                       *)
(***************************************************************************)
EXTENDS FCA

Below(L, i, j) == L[j][2] \subseteq L[i][2] /\ L[i][2] # L[j][2]       \* i < j
CoverPairs(L) == {p \in (DOMAIN L) \X (DOMAIN L) : Below(L, p[2], p[1]) /\
                                               ~ \E k \in DOMAIN L : Below(L, p[2], k) /\ Below(L, k, p[1])}
\* the objects (attributes) whose least (greatest) concept is L[i]
OwnObjects(L, i) == {g \in L[i][1] : \A k \in DOMAIN L : Below(L, k, i) => g \notin L[k][1]}
OwnAttributes(L, i) == {x \in L[i][2] : \A k \in DOMAIN L : Below(L, i, k) => x \notin L[k][2]}

\* how labels are written: all names, a number from five on, always a number,
\* or at most six names and "..."
LabelOK(how, S, names) ==
   IF S = {} THEN names = <<>>
   ELSE CASE how = "plain" -> IF Cardinality(S) >= 5 THEN names = <<ToString(Cardinality(S))>>
                              ELSE Distinct(names) /\ Rng(names) = S
          [] how = "count" -> names = <<ToString(Cardinality(S))>>
          [] how = "full" -> IF Cardinality(S) > 6
                             THEN Len(names) = 7 /\ names[7] = "..." /\ Distinct(SubSeq(names, 1, 6)) /\ Rng(SubSeq(names, 1, 6)) \subseteq S
                             ELSE Distinct(names) /\ Rng(names) = S
NodesOK(L, nodes) == Len(nodes) = Len(L) /\ Rng(nodes) = DOMAIN L
EdgesOK(L, edges) == Distinct(edges) /\ Rng(edges) = CoverPairs(L)
=============================================================================
