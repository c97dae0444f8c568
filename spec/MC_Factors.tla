----------------------------- MODULE MC_Factors -----------------------------
(* The factorisation algorithms, with ties left open, on all small contexts:  *)
(* they satisfy what Factors requires of their results, and end.             *)
EXTENDS Factors
CONSTANTS N, M, Mins, Fids, Algs, Samples
VARIABLES c, alg, p, st
\* st: the loop variables.  pc is "outer", "inner" or "end".
Cxs == {[o |-> [i \in 1..n |-> i], a |-> [j \in 1..m |-> j], r |-> r] :
          n \in 1..N, m \in 1..M, r \in UNION {[1..k -> SUBSET (1..M)] : k \in 1..N}}
Good == {x \in Cxs : WellFormed(x) /\ Pairs(x) # {}}
\* some larger contexts, N x M, spread by a congruence
Hash(k, i, j) == ((((k * 7919 + i * 1039 + j * 173) % 9973) * 4241 + k * 31 + i * 7 + j) % 9967) % 100
Spread(k) == [o |-> [i \in 1..N |-> i], a |-> [j \in 1..M |-> j],
              r |-> [i \in 1..N |-> {j \in 1..M : Hash(k, i, j) < 60}]]
\* on these the algorithm chooses a large factor that covers nothing new
Hard == {<<{1, 3}, {1, 2, 4}, {4}, {3, 4}, {1, 2, 3, 4}>>, <<{1}, {2, 3}, {1, 4}, {1, 3}, {1, 3}>>,
         <<{1, 3, 4}, {1, 3, 4}, {2, 4}, {1, 3, 4}, {1, 3}>>,
         \* ... or, without repetitions, only with objects and attributes used before
         <<{1, 3, 5, 6}, {1, 4, 5}, {2}, {2, 5}, {1, 2, 4, 5, 6}, {1, 2}, {1, 3, 4, 5, 6}, {1, 2, 3, 4, 5, 6}>>,
         <<{2, 3, 4, 6}, {5}, {1, 2, 4, 6}, {1, 2, 3, 4, 5, 6}, {1, 2, 4, 5, 6}, {2, 3}, {1, 3}, {5}>>,
         <<{5, 6}, {1, 3, 5, 6}, {1, 2, 3, 4, 5, 6}, {1, 2, 4, 6}, {2, 3, 4, 5, 6}, {1, 2, 4, 5}, {1, 2, 3, 4, 6}, {1, 2, 3, 5}, {2, 3, 4, 5, 6}>>}
Row(h) == [i \in DOMAIN h |-> i]
Larger == {Spread(k) : k \in 1..Samples} \cup {[o |-> Row(h), a |-> [j \in 1..Max(UNION Rng(h)) |-> j], r |-> h] : h \in Hard}
FidPairs == {<<f, 100>> : f \in Fids}
Params == [fid : FidPairs, min : Mins, objs_ge_atts : BOOLEAN, rep : BOOLEAN]
Init == /\ c \in (IF Samples = 0 THEN Good ELSE {x \in Larger : Pairs(x) # {}}) /\ alg \in Algs
        /\ p \in IF alg = "conditional" THEN Params ELSE [fid : FidPairs, min : {0}, objs_ge_atts : {FALSE}, rep : {TRUE}]
        /\ st = [pc |-> "outer", U |-> Pairs(c), D |-> {}, Dj |-> {}, C |-> {}, V |-> 0, rem |-> {}, gone |-> {}, avail |-> {}, fs |-> <<>>]
Total == Cardinality(Pairs(c))
Gain(D, y, U) == LET X == Ext(c, D \cup {y}) IN Rect(X, Itn(c, X)) \cap U
Score(P) == Cardinality({q[1] : q \in P}) * Cardinality({q[2] : q \in P})
Measure(D, y, U) == IF alg = "weighted" THEN Score(Gain(D, y, U)) ELSE Cardinality(Gain(D, y, U))
Emit(n, U) == Append(st.fs, [x |-> st.C, b |-> st.D, n |-> n, t |-> Total - Cardinality(U)])
Outer == /\ st.pc = "outer"
         /\ st' = IF ~ Below(c, st.U, p.fid) THEN [st EXCEPT !.pc = "end"]
                  ELSE [st EXCEPT !.pc = "inner", !.D = {}, !.Dj = {}, !.C = Objs(c), !.V = 0, !.rem = {},
                                  !.avail = IF alg = "conditional" THEN {q[2] : q \in st.U} \ st.gone ELSE Atts(c)]
\* greedy and weighted
Best(Y) == IF Y = {} THEN 0 ELSE Max({Measure(st.D, y, st.U) : y \in Y})
Inner == /\ st.pc = "inner" /\ alg # "conditional"
         /\ LET Y == Atts(c) \ st.D
                w == IF alg = "weighted" THEN Len(c.o) * Len(c.a) ELSE 1
            IN \/ /\ Best(Y) > st.V * w
                  /\ \E y \in {z \in Y : Measure(st.D, z, st.U) = Best(Y)} :
                       LET C == Ext(c, st.D \cup {y})  D == Itn(c, C)  R == Rect(C, D) \cap st.U
                       IN st' = [st EXCEPT !.C = C, !.D = D, !.rem = R, !.V = Cardinality(R)]
               \/ /\ Best(Y) <= st.V * w
                  /\ Assert(st.rem # {}, "stuck")
                  /\ st' = [st EXCEPT !.pc = "outer", !.U = @ \ st.rem, !.fs = Emit(Cardinality(st.rem), st.U \ st.rem)]
\* conditional
Large == BigEnough(p, st.C, st.D)
InnerC == /\ st.pc = "inner" /\ alg = "conditional"
          /\ LET Y == st.avail \ st.D IN
             IF Y = {} /\ (st.V = 0 \/ ~ Large) THEN st' = [st EXCEPT !.pc = "end"]
             \* (when all available attributes are in, the factor is handed out)
             ELSE IF Best(Y) > st.V \/ ~ Large
             THEN \E y \in {z \in Y : Measure(st.D, z, st.U) = Best(Y)} :
                    LET Dj == st.D \cup {y}  C == Ext(c, Dj)  D == Itn(c, C)
                        R == Rect(C, D) \cap st.U
                    IN st' = IF Cardinality(C) < p.min
                             THEN [st EXCEPT !.pc = "outer", !.U = {u \in @ : u[2] \notin Dj}, !.gone = @ \cup Dj]
                             ELSE [st EXCEPT !.C = C, !.D = D, !.Dj = Dj, !.V = Cardinality(R),
                                             !.rem = IF p.rep THEN R ELSE (Rect(C, Atts(c)) \cup Rect(Objs(c), D)) \cap st.U]
             \* large enough, but nothing new is covered: without these attributes
             ELSE IF st.V = 0
             THEN st' = [st EXCEPT !.pc = "outer", !.U = {u \in @ : u[2] \notin st.Dj}, !.gone = @ \cup st.Dj]
             ELSE st' = [st EXCEPT !.pc = "outer", !.U = @ \ st.rem, !.fs = Emit(Cardinality(st.rem), st.U \ st.rem)]
Next == (Outer \/ Inner \/ InnerC) /\ UNCHANGED <<c, alg, p>>
Spec == Init /\ [][Next]_<<c, alg, p, st>> /\ WF_<<c, alg, p, st>>(Next)
Done == st.pc = "end"
Ends == <>Done
Invariant ==
   CASE alg = "greedy" -> GreedyBad(c, p.fid, st.fs, Done) = {}
     [] alg = "weighted" -> WeightedBad(c, p.fid, st.fs, Done) = {}
     [] alg = "conditional" -> ConditionalBad(c, p.fid, p, st.fs, Done) = {}
=============================================================================
