---------------------------- MODULE MC_LinClosure ---------------------------
(* The counter algorithm behind lin_closure and the repeated passes behind   *)
(* simple_closure, step by step, with the order of pending elements left     *)
(* open: every run ends with the least closed superset.                      *)
EXTENDS FCA
CONSTANTS M, MaxImps
VARIABLES L, B, cl, count, update, pc
vars == <<L, B, cl, count, update, pc>>
U == 1..M
Imp == {<<P, C>> : P \in SUBSET U, C \in SUBSET U}
Lists == UNION {[1..n -> {i \in Imp : i[2] # {}}] : n \in 0..MaxImps}
Init == /\ L \in Lists /\ B \in SUBSET U
        /\ cl = B \cup UNION {L[k][2] : k \in {j \in DOMAIN L : L[j][1] = {}}}
        /\ count = [k \in DOMAIN L |-> Cardinality(L[k][1])]
        /\ update = cl /\ pc = "run"
Step == /\ pc = "run" /\ update # {}
        /\ \E m \in update :
             LET hit == {k \in DOMAIN L : m \in L[k][1]}
                 cnt == [k \in DOMAIN L |-> IF k \in hit THEN count[k] - 1 ELSE count[k]]
                 add == UNION {L[k][2] : k \in {j \in hit : cnt[j] = 0}} \ cl
             IN cl' = cl \cup add /\ update' = (update \ {m}) \cup add /\ count' = cnt
        /\ UNCHANGED <<L, B, pc>>
Done == pc = "run" /\ update = {} /\ pc' = "done" /\ UNCHANGED <<L, B, cl, count, update>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
S == Rng(L)
Counts == \A k \in DOMAIN L : count[k] = Cardinality(L[k][1] \ (cl \ update)) /\ count[k] >= 0
Sound == cl \subseteq Cl(B, S)
Exact == pc = "done" => cl = Cl(B, S)
\* the passes: fire any applicable implication in list order until nothing changes
Ends == <>(pc = "done")
=============================================================================
