----------------------------- MODULE MC_Scaling -----------------------------
(* Design: sub-contexts taken one after another, and scaling cell by cell   *)
(* as an algorithm.  Scaling commutes with taking sub-contexts; nominal and *)
(* ordinal scales do what their names say.                                  *)
EXTENDS Scaling
CONSTANTS N, M, Vals, Steps
VARIABLES full, mv, rows, cols, steps
vars == <<full, mv, rows, cols, steps>>
Id(x) == x
Init == /\ full \in {[o |-> [i \in 1..N |-> i], a |-> [j \in 1..M |-> "a" \o ToString(j)], v |-> v] : v \in [1..N -> [1..M -> Vals]]}
        /\ mv = full /\ rows = [i \in 1..N |-> i] /\ cols = [j \in 1..M |-> j] /\ steps = 0
Step == steps < Steps /\ steps' = steps + 1 /\ UNCHANGED full
ByAtts == /\ Step /\ \E s \in UNION {[1..k -> DOMAIN mv.a] : k \in 0..Len(mv.a)} :
                       Distinct(s) /\ mv' = Extract(mv, [k \in DOMAIN s |-> mv.a[s[k]]]) /\ cols' = [k \in DOMAIN s |-> cols[s[k]]]
          /\ UNCHANGED rows
ByCond == /\ Step /\ \E I \in SUBSET (DOMAIN mv.o) : mv' = ByCondition(mv, I) /\ rows' = [k \in 1..Cardinality(I) |-> rows[SetToSortSeq(I, <)[k]]]
          /\ UNCHANGED cols
ByVals == /\ Step /\ \E j \in DOMAIN mv.a : \E x \in Vals :
                       /\ mv' = ByValues(mv, {<<mv.a[j], x>>}, Id)
                       /\ rows' = LET I == SetToSortSeq({i \in DOMAIN mv.o : mv.v[i][j] = x}, <) IN [k \in DOMAIN I |-> rows[I[k]]]
          /\ UNCHANGED cols
Next == ByAtts \/ ByCond \/ ByVals
\* the sub-context holds exactly the chosen columns and objects of the full one
Selected == mv = [o |-> [i \in DOMAIN rows |-> full.o[rows[i]]], a |-> [j \in DOMAIN cols |-> full.a[cols[j]]],
                  v |-> [i \in DOMAIN rows |-> [j \in DOMAIN cols |-> full.v[rows[i]][cols[j]]]]]
S1 == Nominal(Vals)
S2 == Ordinal(0, 2, "geq", Id)
S3 == Ordinal(0, 2, "leq", Id)
ScaleFor(j) == IF j = 1 THEN S1 ELSE IF j = 2 THEN S2 ELSE S3
Commutes == LET whole == Scaled(full, [j \in 1..M |-> ScaleFor(j)])
                part == Scaled(mv, [j \in DOMAIN cols |-> ScaleFor(cols[j])])
            IN \A i \in DOMAIN mv.o : part.r[i] = whole.r[rows[i]] \cap Rng(part.a)
Kinds == /\ IsNominal(S1, Vals, 0..5) /\ \A m \in {"geq", "leq"} : IsOrdinal(Ordinal(0, 2, m, Id), 0, 2, m, Id, 0..5)
         /\ IsOrdinal(Ordinal(1, 1, "leq", Id), 1, 1, "leq", Id, 0..5)
\* nominal: rows agree exactly if the values do; ordinal: rows are a chain in the order of the values
Nom == LET s == Scaled(full, [j \in 1..M |-> S1]) IN
         \A i, k \in 1..N : (s.r[i] = s.r[k]) <=> full.v[i] = full.v[k]
Ord == \A m \in {"geq", "leq"} : LET s == Scaled(Extract(full, <<full.a[1]>>), <<Ordinal(0, 2, m, Id)>>) IN
         \A i, k \in 1..N : (s.r[i] \subseteq s.r[k]) <=> (IF m = "geq" THEN full.v[i][1] <= full.v[k][1] ELSE full.v[i][1] >= full.v[k][1])
Invariant == Selected /\ Commutes /\ Kinds /\ Nom /\ Ord
=============================================================================
