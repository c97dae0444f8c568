------------------------------- MODULE Scaling ------------------------------
(***************************************************************************)
(* Many-valued contexts [o, a, v] (v: rows of values) and conceptual       *)
(* scales [c, a, r]: c[i] is the set of values for which the i-th scale    *)
(* object (a condition) holds, r[i] the set of positions of scale          *)
(* attributes it has.                                                      *)
(***************************************************************************)
EXTENDS FCA
CONSTANT Reads(_)          \* how a stored value is read by a scale

Column(mv, x) == CHOOSE j \in DOMAIN mv.a : mv.a[j] = x
Extract(mv, names) == [o |-> mv.o, a |-> names, v |-> [i \in DOMAIN mv.o |-> [j \in DOMAIN names |-> mv.v[i][Column(mv, names[j])]]]]
Keep(mv, I) == LET s == TLCEval(SetToSortSeq(I, <)) IN [o |-> [k \in DOMAIN s |-> mv.o[s[k]]], a |-> mv.a, v |-> [k \in DOMAIN s |-> mv.v[s[k]]]]
\* E maps stored values to what decides whether they are equal
ByValues(mv, S, E(_)) == Keep(mv, {i \in DOMAIN mv.o : \A p \in S : E(mv.v[i][Column(mv, p[1])]) = E(p[2])})
ByCondition(mv, I) == Keep(mv, I \cap DOMAIN mv.o)

(******************************** scaling **********************************)
\* positions of the scale attributes a value gets
Gets(s, value) == UNION {s.r[i] : i \in {k \in DOMAIN s.c : value \in s.c[k]}}
\* a scaled row: set of <<column, scale attribute>>
ScaledRow(mv, scales, i) == UNION {{<<j, k>> : k \in Gets(scales[j], Reads(mv.v[i][j]))} : j \in DOMAIN mv.a}
ScaledAtts(mv, scales) == FlattenSeq([j \in DOMAIN mv.a |-> [k \in DOMAIN scales[j].a |-> <<j, k>>]])
NameOf(mv, scales, p) == mv.a[p[1]] \o ":" \o scales[p[1]].a[p[2]]
Scaled(mv, scales) ==
   LET atts == ScaledAtts(mv, scales)
   IN [o |-> mv.o, a |-> [k \in DOMAIN atts |-> NameOf(mv, scales, atts[k])],
       r |-> [i \in DOMAIN mv.o |-> LET row == ScaledRow(mv, scales, i) IN {NameOf(mv, scales, p) : p \in row}]]

(******************************** scales ***********************************)
ValuesOf(mv, j) == {Reads(mv.v[i][j]) : i \in DOMAIN mv.o}
ScaleWF(s) == Len(s.c) = Len(s.r) /\ Distinct(s.a) /\ \A i \in DOMAIN s.r : s.r[i] \subseteq DOMAIN s.a
\* each value of the column gets one attribute of its own, nothing else gets one
IsNominal(s, V, pool) ==
   /\ ScaleWF(s) /\ Len(s.a) = Cardinality(V)
   /\ \A x \in V : Cardinality(Gets(s, x)) = 1
   /\ \A x, y \in V : x # y => Gets(s, x) # Gets(s, y)
   /\ \A x \in pool \ V : Gets(s, x) = {}
\* the chain lo..hi: attributes "<= w" for w < hi, or ">= w" for w > lo
OrdinalAtts(lo, hi, mode) == IF mode = "geq" THEN [k \in 1..(hi - lo) |-> ">= " \o ToString(lo + k)]
                             ELSE [k \in 1..(hi - lo) |-> "<= " \o ToString(lo + k - 1)]
IsOrdinal(s, lo, hi, mode, Num(_), pool) ==
   /\ ScaleWF(s) /\ s.a = OrdinalAtts(lo, hi, mode)
   /\ \A w \in lo..hi : Num(w) \in pool => Gets(s, Num(w)) = (IF mode = "geq" THEN {k \in DOMAIN s.a : lo + k <= w}
                                                             ELSE {k \in DOMAIN s.a : w <= lo + k - 1})
   /\ \A x \in pool \ {Num(w) : w \in lo..hi} : Gets(s, x) = {}
Nominal(V) == LET s == SetToSeq(V) IN [c |-> [i \in DOMAIN s |-> {s[i]}], a |-> [i \in DOMAIN s |-> "is" \o ToString(i)], r |-> [i \in DOMAIN s |-> {i}]]
Ordinal(lo, hi, mode, Num(_)) ==
   LET a == OrdinalAtts(lo, hi, mode)
   IN [c |-> [i \in 1..(hi - lo + 1) |-> {Num(lo + i - 1)}], a |-> a,
       r |-> [i \in 1..(hi - lo + 1) |-> IF mode = "geq" THEN 1..(i - 1) ELSE i..(hi - lo)]]
=============================================================================
