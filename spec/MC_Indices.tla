----------------------------- MODULE MC_Indices -----------------------------
(* Design: the algorithm that takes concepts off the lattice from below,    *)
(* subtracting the subsets they generate from everything above, as a state  *)
(* machine with the choice among the ready concepts left open; it computes  *)
(* stability.  Sums and bounds of the indices; the independent-attribute    *)
(* probabilities of all attribute sets being closed, and big numbers.       *)
EXTENDS Indices
CONSTANTS N, M, Side          \* Side = 1: extents from below, 2: intents from above
VARIABLES cx, left, count, sub, stab, ready
vars == <<cx, left, count, sub, stab, ready>>
Less(p, q) == p[Side] \subseteq q[Side] /\ p # q
L == Concepts(cx)
Init == /\ cx \in {[o |-> [i \in 1..N |-> i], a |-> [j \in 1..M |-> 10 + j], r |-> r] : r \in [1..N -> SUBSET {10 + j : j \in 1..M}]}
        /\ left = L
        /\ count = [p \in L |-> Cardinality({q \in L : Less(q, p)})]
        /\ sub = [p \in L |-> Pow(2, Cardinality(p[Side]))]
        /\ stab = [x \in {} |-> 0]
        /\ ready = {p \in L : \A q \in L : ~ Less(q, p)}
Take == /\ left # {}
        /\ \E b \in ready :
             LET above == {q \in left : Less(b, q)} IN
             /\ stab' = Put(stab, b, sub[b])
             /\ left' = left \ {b}
             /\ sub' = [q \in L |-> IF q \in above THEN sub[q] - sub[b] ELSE sub[q]]
             /\ count' = [q \in L |-> IF q \in above THEN count[q] - 1 ELSE count[q]]
             /\ ready' = (ready \ {b}) \cup {q \in above : count[q] = 1}
        /\ UNCHANGED cx
Spec == Init /\ [][Take]_vars /\ WF_vars(Take)
Ends == <>(left = {})
NeverStuck == left # {} => ready # {} /\ ready \subseteq left
Def(p) == IF Side = 1 THEN IntStability(cx, p)[1] ELSE ExtStability(cx, p)[1]
Right == \A p \in DOMAIN stab : stab[p] = Def(p) /\ stab[p] >= 1
Recursion == left = L => /\ CountsUp(L, Side) = [p \in L |-> Def(p)]
                        /\ CountsUpBig(L, Side) = [p \in L |-> BigOf(Def(p))]
AllSubsetsOnce == left = {} => SumOf({<<p, stab[p]>> : p \in L}) = Pow(2, IF Side = 1 THEN N ELSE M)
Bounds == left = L => \A p \in L : /\ Separation(cx, p)[1] <= Separation(cx, p)[2] /\ Separation(cx, p)[2] > 0
                                   /\ BLeq(Probability(cx, p)[1], Probability(cx, p)[2])
\* the probability of being closed, by enumerating all contexts as worlds, each
\* attribute cell independent: weight cnt or n - cnt per cell over n^(n m)
RECURSIVE ProdSet(_, _)
ProdSet(S, f) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] * ProdSet(S \ {x}, f)
Worlds == [1..N -> SUBSET Atts(cx)]
ClosedIn(w, B) == {y \in Atts(cx) : \A i \in 1..N : B \subseteq w[i] => y \in w[i]} = B
Weight(w) == ProdSet(1..N, [i \in 1..N |-> ProdSet(Atts(cx), [y \in Atts(cx) |-> LET k == Cardinality(Ext(cx, {y})) IN IF y \in w[i] THEN k ELSE N - k])])
ByWorlds == left = L /\ Side = 1 /\ N * M <= 6 =>
               \A p \in L : LET s == SumOf({<<w, Weight(w)>> : w \in {v \in Worlds : ClosedIn(v, p[2])}})
                                f == Probability(cx, p)
                            IN \* f = s / N^(N M)
                               f[2] = BigOf(Pow(N, N * M)) /\ f[1] = BigOf(s)
\* fixed-point numbers are right to forty places
Fixed == left = L /\ Side = 1 => \A p \in L : LET f == Probability(cx, p)
                                                 x == ProbabilityFixed(cx, p)
                                             IN /\ BLeq(BMul(x, f[2]), BMul(f[1], FOne))
                                                /\ BLeq(BMul(f[1], FOne), BMul(BAdd(x, Zeros(2) \o <<1>>), f[2]))
ASSUME \A a \in {0, 1, 9999, 10000, 123456789} : \A d \in {1, 2, 7, 9999} : /\ BDivSmall(BigOf(a), d) = BigOf(a \div d)
                                                                            /\ BScale(BigOf(a \div d), d) = BigOf((a \div d) * d)
ASSUME \A a \in {0, 1, 7, 9999, 10000, 10001, 25000} : \A b \in {0, 1, 3, 9999, 10000, 20003} :
          /\ BAdd(BigOf(a), BigOf(b)) = BigOf(a + b)
          /\ BMul(BigOf(a), BigOf(b)) = BigOf(a * b)
          /\ (a >= b => BSub(BigOf(a), BigOf(b)) = BigOf(a - b))
          /\ (BLeq(BigOf(a), BigOf(b)) <=> a <= b)
Invariant == NeverStuck /\ Right /\ Recursion /\ AllSubsetsOnce /\ Bounds /\ ByWorlds /\ Fixed
=============================================================================
