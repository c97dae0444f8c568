--------------------------- MODULE MC_NextClosure ---------------------------
(* The optimised next-closure enumeration of a basis relative to background  *)
(* knowledge (generalized_compute_dg_basis and generalized_dg_basis_iter in  *)
(* fca/algorithms/dg_basis.py), one set after the other.  The attributes are *)
(* 1..m in the order of the context.                                         *)
EXTENDS FCA
CONSTANTS N, M, K
VARIABLES c, L, a, i, rel, pc
vars == <<c, L, a, i, rel, pc>>
Cxs == UNION {{[o |-> [x \in 1..n |-> x], a |-> [y \in 1..m |-> y], r |-> r] : r \in [1..n -> SUBSET (1..m)]} : n \in 0..N, m \in 0..M}
\* background knowledge: implications of the context, conclusions as large as can be or of one more attribute
Background(x) == UNION {{<<P, Q>> : Q \in {S \in SUBSET (ClA(x, P) \ P) : S # {} /\ (Cardinality(S) = 1 \/ S = ClA(x, P) \ P)}} : P \in SUBSET Atts(x)}
Backgrounds(x) == IF K = 0 THEN {{}} ELSE IF K = 1 THEN {{}} \cup {{p} : p \in Background(x)} ELSE {{p, q} : p, q \in Background(x)} \cup {{}}
Init == /\ c \in Cxs /\ L \in Backgrounds(c)
        /\ a = Cl({}, L) /\ i = Len(c.a) /\ rel = <<>> /\ pc = "run"
m == Len(c.a)
Known == Rng(rel') \cup L
\* the next set: from position j downwards
RECURSIVE Down(_, _, _)
Down(s, j, imps) ==
   IF j = 0 THEN <<s, 0, FALSE>>
   ELSE IF j \in s THEN Down(s \ {j}, j - 1, imps)
   ELSE LET b == Cl(s \cup {j}, imps) IN
        IF (b \ s) \cap (1..(j - 1)) = {} THEN <<b, j - 1, TRUE>> ELSE Down(s, j - 1, imps)
Step == /\ pc = "run" /\ Cardinality(a) < m
        /\ LET ac == ClA(c, a) IN
           /\ rel' = IF a # ac THEN Append(rel, <<a, ac>>) ELSE rel
           /\ IF (ac \ a) \cap (1..i) = {} /\ Cardinality(ac) = m
              THEN pc' = "end" /\ UNCHANGED <<a, i>>
              ELSE LET d == IF (ac \ a) \cap (1..i) # {} THEN Down(a \ ((i + 1)..m), i, Known) ELSE Down(ac, m, Known)
                   IN Assert(d[3], "no next set") /\ a' = d[1] /\ i' = d[2] /\ UNCHANGED pc
        /\ UNCHANGED <<c, L>>
Stop == pc = "run" /\ Cardinality(a) = m /\ pc' = "end" /\ UNCHANGED <<c, L, a, i, rel>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "end"
Ends == <>Done
\* lectic order: the first attribute in which they differ
Lectic(x, y) == x # y /\ Min((x \ y) \cup (y \ x)) \in y
Target == RelativeBasis(c, L)
Exact == Done => Rng(rel) = Target
\* each implication handed out belongs to the basis, once, in order; none is skipped
Prefix == /\ Distinct(rel) /\ Rng(rel) \subseteq Target
          /\ \A k \in 1..(Len(rel) - 1) : Lectic(rel[k][1], rel[k + 1][1])
          /\ pc = "run" => \A x \in Target : Lectic(x[1], a) => x \in Rng(rel)
Closed == pc = "run" => IsClosed(a, Rng(rel) \cup L)
Progress == [][pc' = "end" \/ Lectic(a, a')]_vars
=============================================================================
