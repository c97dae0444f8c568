------------------------ MODULE MC_ObjectIncremental ------------------------
(* The object-incremental computation of an implication cover, and the       *)
(* minimisation of a cover (fca/algorithms/implication_covers.py).  Missing  *)
(* attributes are taken in any order, as sets are.                           *)
EXTENDS FCA
CONSTANTS N, M
VARIABLES c, i, basis, valid, invalid, new, j, left, pc
vars == <<c, i, basis, valid, invalid, new, j, left, pc>>
Cxs == UNION {{[o |-> [x \in 1..n |-> x], a |-> [y \in 1..m |-> y], r |-> r] : r \in [1..n -> SUBSET (1..m)]} : n \in 0..N, m \in 0..M}
Part(n) == [o |-> SubSeq(c.o, 1, n), a |-> c.a, r |-> SubSeq(c.r, 1, n)]
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
SubsumedSimply(x, y) == y[1] \subseteq x[1] /\ x[2] \subseteq y[2]
(* is_new, and the three ways in which a list absorbs an implication: each   *)
(* gives <<the list afterwards, the implication, whether to append it>>      *)
IsNew(x, s) == ~ (x[2] \subseteq x[1]) /\ ~ \E k \in DOMAIN s : SubsumedSimply(x, s[k])
\* imp, position, list so far, whether it can still be subsumed
RECURSIVE Simply(_, _, _, _)
Simply(x, k, s, can) ==
   IF k > Len(s) THEN <<s, x, TRUE>>
   ELSE IF can /\ SubsumedSimply(x, s[k]) THEN <<s, x, FALSE>>
   ELSE IF SubsumedSimply(s[k], x) THEN Simply(x, k, Drop(s, k), FALSE)
   ELSE Simply(x, k + 1, s, can)
RECURSIVE Subsumed(_, _, _, _)
Subsumed(x, k, s, can) ==
   IF k > Len(s) THEN <<s, x, TRUE>>
   ELSE IF can /\ s[k][1] \subseteq x[1]
        THEN IF x[2] \subseteq s[k][2] THEN <<s, x, FALSE>> ELSE Subsumed(<<x[1], x[2] \cup s[k][2]>>, k + 1, s, can)
   ELSE IF SubsumedSimply(s[k], x) THEN Subsumed(x, k, Drop(s, k), FALSE)
   ELSE Subsumed(x, k + 1, s, can)
RECURSIVE Plus(_, _, _)
Plus(x, k, s) ==
   IF k > Len(s) THEN <<s, x, TRUE>>
   ELSE LET y == s[k] IN
        IF y[1] = x[1] THEN <<[s EXCEPT ![k] = <<y[1], y[2] \cup x[2]>>], x, FALSE>>
        ELSE IF y[1] \subseteq x[1]
             THEN IF x[2] \subseteq y[2] THEN <<s, x, FALSE>> ELSE Plus(<<x[1], x[2] \cup y[2]>>, k + 1, s)
        ELSE IF x[1] \subseteq y[1]
             THEN IF y[2] \subseteq x[2] THEN Plus(x, k, Drop(s, k)) ELSE Plus(x, k + 1, [s EXCEPT ![k] = <<y[1], y[2] \cup x[2]>>])
        ELSE Plus(x, k + 1, s)
Absorb(s, res) == IF res[3] THEN Append(res[1], res[2]) ELSE res[1]
R == c.r[i]
Init == /\ c \in Cxs /\ i = 1 /\ basis = << <<{}, Atts(c)>> >> /\ valid = <<>> /\ invalid = <<>> /\ new = <<>>
        /\ j = 1 /\ left = {} /\ pc = "split"
Split == /\ pc = "split" /\ i <= Len(c.o)
         /\ valid' = SelectSeq(basis, LAMBDA x : Respects(R, x)) /\ invalid' = SelectSeq(basis, LAMBDA x : ~ Respects(R, x))
         /\ new' = <<>> /\ j' = 1 /\ left' = {} /\ pc' = "shrink" /\ UNCHANGED <<c, i, basis>>
Shrink == /\ pc = "shrink"
          /\ IF j > Len(invalid)
             THEN valid' = valid \o new /\ new' = <<>> /\ j' = 1 /\ left' = Atts(c) \ R /\ pc' = "extend"
             ELSE LET x == <<invalid[j][1], invalid[j][2] \cap R>> IN
                  /\ new' = IF x[2] \subseteq x[1] \/ ~ IsNew(x, valid) THEN new ELSE Absorb(new, Simply(x, 1, new, TRUE))
                  /\ j' = j + 1 /\ UNCHANGED <<valid, left, pc>>
          /\ UNCHANGED <<c, i, basis, invalid>>
Extend == /\ pc = "extend" /\ j <= Len(invalid) /\ left # {}
          /\ \E y \in left :
               LET x == <<invalid[j][1] \cup {y}, invalid[j][2] \cup {y}>>
                   v == Subsumed(x, 1, valid, TRUE)
               IN /\ left' = left \ {y}
                  /\ IF x[2] \subseteq x[1] THEN UNCHANGED <<valid, new>>
                     ELSE /\ valid' = v[1]
                          /\ new' = IF v[3] /\ ~ (v[2][2] \subseteq v[2][1]) THEN Absorb(new, Plus(v[2], 1, new)) ELSE new
          /\ UNCHANGED <<c, i, basis, invalid, j, pc>>
NextOne == /\ pc = "extend" /\ j <= Len(invalid) /\ left = {} /\ j' = j + 1 /\ left' = Atts(c) \ R
           /\ UNCHANGED <<c, i, basis, valid, invalid, new, pc>>
NextObject == /\ pc = "extend" /\ j > Len(invalid) /\ basis' = valid \o new /\ i' = i + 1 /\ pc' = "split"
              /\ UNCHANGED <<c, valid, invalid, new, j, left>>
\* minimisation: one implication after the other leaves the list, closes its premise, and returns unless redundant
Minimise == /\ pc = "split" /\ i > Len(c.o) /\ pc' = "minimise" /\ valid' = basis /\ UNCHANGED <<c, i, basis, invalid, new, j, left>>
Without(s, x) == LET k == Min({k \in DOMAIN s : s[k] = x}) IN Drop(s, k)
Minimal == /\ pc = "minimise"
           /\ IF valid = <<>> THEN pc' = "end" /\ UNCHANGED <<valid, basis>>
              ELSE LET x == Head(valid)
                       rest == Without(basis, x)
                       P == Cl(x[1], Rng(rest))
                   IN basis' = (IF x[2] \subseteq P THEN rest ELSE Append(rest, <<P, x[2]>>)) /\ valid' = Tail(valid) /\ UNCHANGED pc
           /\ UNCHANGED <<c, i, invalid, new, j, left>>
Next == Split \/ Shrink \/ Extend \/ NextOne \/ NextObject \/ Minimise \/ Minimal
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "end"
Ends == <>Done
\* between two objects the list is a cover of the part read so far
Exact == pc = "split" => ExactFor(Part(i - 1), Rng(basis))
\* minimisation keeps what follows; at the end nothing is redundant
Kept == pc \in {"minimise", "end"} => ExactFor(c, Rng(basis))
Minimised == Done => Irredundant(Rng(basis)) /\ Distinct(basis) /\ Cardinality(Rng(basis)) = Cardinality(StemBase(c))
=============================================================================
