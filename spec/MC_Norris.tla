------------------------------ MODULE MC_Norris ------------------------------
(* Norris' algorithm (fca/algorithms/norris.py), concept by concept: objects *)
(* are added one after the other; a concept whose intent the new object has  *)
(* grows, any other may give rise to a new concept.  Concepts are handed out *)
(* as soon as they arise, while their extents still grow.                    *)
EXTENDS FCA
CONSTANTS N, M
VARIABLES c, i, k, top, cs
\* i: object being added, k: position in cs, top: length of cs when i began
vars == <<c, i, k, top, cs>>
Cxs == UNION {{[o |-> [x \in 1..n |-> x], a |-> [y \in 1..m |-> y], r |-> r] : r \in [1..n -> SUBSET (1..m)]} : n \in 0..N, m \in 0..M}
Init == c \in Cxs /\ i = 1 /\ k = 1 /\ top = 1 /\ cs = << <<{}, Atts(c)>> >>
Row == c.r[i]
\* no earlier object outside the extent has the whole intersection
New(p) == \A j \in 1..(i - 1) : (p[2] \cap Row) \subseteq c.r[j] => c.o[j] \in p[1]
Loop == /\ i <= Len(c.o) /\ k <= top
        /\ LET p == cs[k] IN
           cs' = IF p[2] \subseteq Row THEN [cs EXCEPT ![k] = <<p[1] \cup {c.o[i]}, p[2]>>]
                 ELSE IF New(p) THEN Append(cs, <<p[1] \cup {c.o[i]}, p[2] \cap Row>>)
                 ELSE cs
        /\ k' = k + 1 /\ UNCHANGED <<c, i, top>>
NextObject == i <= Len(c.o) /\ k > top /\ i' = i + 1 /\ k' = 1 /\ top' = Len(cs) /\ UNCHANGED <<c, cs>>
Next == Loop \/ NextObject
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == i > Len(c.o)
Part(n) == [o |-> SubSeq(c.o, 1, n), a |-> c.a, r |-> SubSeq(c.r, 1, n)]
\* between two objects: exactly the concepts of the part read so far
Exact == k = 1 => /\ Distinct(cs) /\ Rng(cs) = Concepts(Part(i - 1))
\* at any time: what was handed out has the intent of a concept, once
Handed == /\ \A p \in Rng(cs) : p[2] \in Intents(c)
          /\ Distinct([x \in DOMAIN cs |-> cs[x][2]])
\* extents of those handed out only grow, intents stay
Grows == [][\A x \in DOMAIN cs : cs[x][1] \subseteq cs'[x][1] /\ cs'[x][2] = cs[x][2]]_vars
Ends == <>Done
\* compute_covering_relation: a larger concept is a parent until one between is met
Parents(s, j) == {p \in DOMAIN s : s[p][2] # s[j][2] /\ s[p][2] \subseteq s[j][2] /\
                   ~ \E q \in DOMAIN s : s[p][2] \subseteq s[q][2] /\ s[p][2] # s[q][2] /\ s[q][2] \subseteq s[j][2] /\ s[q][2] # s[j][2]}
Covers == Done => \A j \in DOMAIN cs : {cs[p] : p \in Parents(cs, j)} = UpperCovers(Concepts(c), cs[j])
=============================================================================
