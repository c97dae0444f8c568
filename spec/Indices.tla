------------------------------- MODULE Indices ------------------------------
(***************************************************************************)
(* Interest indices of the concepts <<X, B>> of a context, as fractions    *)
(* <<numerator, denominator>>, filters, and indices stored in concepts.    *)
(***************************************************************************)
EXTENDS FCA, BigNat

(***************************** the definitions *****************************)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
IntStability(c, p) == <<GeneratingExtents(c, p[1], p[2]), Pow(2, Cardinality(p[1]))>>
ExtStability(c, p) == <<GeneratingIntents(c, p[1], p[2]), Pow(2, Cardinality(p[2]))>>
\* the same by recursion over the lattice: a subset of the extent generates
\* exactly one of the concepts below (MC_Indices: they agree)
SumOf(S) == FoldSet(LAMBDA x, acc : x[2] + acc, 0, S)
\* counts for all concepts, smallest extents first
CountsUp(L, side) ==
   LET key(p) == Cardinality(p[side])
       order == TLCEval(SetToSortSeq(L, LAMBDA p, q : key(p) < key(q)))
   IN FoldLeft(LAMBDA f, p : TLCEval(f @@ (p :> (Pow(2, key(p)) - SumOf({<<q, f[q]>> : q \in {r \in DOMAIN f : r[side] \subseteq p[side] /\ r # p}})))),
               [x \in {} |-> 0], order)
\* the same for sides beyond TLC's integers
SumBig(S) == FoldSet(LAMBDA x, acc : BAdd(x[2], acc), <<>>, S)
CountsUpBig(L, side) ==
   LET key(p) == Cardinality(p[side])
       order == TLCEval(SetToSortSeq(L, LAMBDA p, q : key(p) < key(q)))
   IN FoldLeft(LAMBDA f, p : TLCEval(f @@ (p :> BSub(BPow2(key(p)), SumBig({<<q, f[q]>> : q \in {r \in DOMAIN f : r[side] \subseteq p[side] /\ r # p}})))),
               [x \in {} |-> 0], order)
Size(c, p) == Cardinality(p[1]) * Cardinality(p[2])
Separation(c, p) ==
   IF Size(c, p) = 0 THEN <<1, 1>>
   ELSE <<Size(c, p), SumOf({<<g, Cardinality(RowOf(c, g))>> : g \in p[1]}) + SumOf({<<y, Cardinality(Ext(c, {y}))>> : y \in p[2]}) - Size(c, p)>>
ExtentSize(c, p) == <<Cardinality(p[1]), Len(c.o)>>
IntentSize(c, p) == <<Cardinality(p[2]), Len(c.a)>>

\* probability that a set B of attributes is closed when the attributes occur
\* independently with their frequencies in the context:
\*    sum over k of  C(n,k) pB^k (1-pB)^(n-k) prod over m not in B of (1 - pm^k)
\* row n of Pascal's triangle: Pascal(n)[k + 1] is the number of k-subsets of n
RECURSIVE Pascal(_)
Pascal(n) == IF n = 0 THEN <<BigOf(1)>>
             ELSE LET r == TLCEval(Pascal(n - 1)) IN [k \in 1..(n + 1) |-> IF k \in {1, n + 1} THEN BigOf(1) ELSE BAdd(r[k - 1], r[k])]
RECURSIVE ProdBig(_)
ProdBig(s) == IF s = <<>> THEN BigOf(1) ELSE BMul(Head(s), ProdBig(Tail(s)))
Probability(c, p) ==
   LET n == Len(c.o)
       cnt(y) == Cardinality(Ext(c, {y}))
       B == SetToSeq(p[2])
       R == SetToSeq(Atts(c) \ p[2])
       nB == TLCEval(ProdBig([i \in DOMAIN B |-> BigOf(cnt(B[i]))]))            \* pB = nB / dB
       dB == TLCEval(BPow(BigOf(n), Len(B)))
       ways == TLCEval(Pascal(n))
       term(k) == LET nk == BPow(BigOf(n), k)
                      rest == ProdBig([i \in DOMAIN R |-> BSub(nk, BPow(BigOf(cnt(R[i])), k))])     \* over n^(k |R|)
                      fill == BPow(BigOf(n), (n - k) * Len(R))
                  IN BMul(BMul(ways[k + 1], BMul(BPow(nB, k), BPow(BSub(dB, nB), n - k))), BMul(rest, fill))
       total == FoldLeft(LAMBDA acc, k : BAdd(acc, term(k)), <<>>, [k \in 1..(n + 1) |-> k - 1])
   IN <<TLCEval(total), BMul(BPow(dB, n), BPow(BigOf(n), n * Len(R)))>>
\* the same with fixed-point numbers, rounded down: too small by less than
\* 2^n (n + 1)(|M| + 2) BB^-Places (MC_Indices: they agree)
ProbabilityFixed(c, p) ==
   LET n == Len(c.o)
       cnt(y) == Cardinality(Ext(c, {y}))
       B == SetToSeq(p[2])
       R == SetToSeq(Atts(c) \ p[2])
       cR == TLCEval([i \in DOMAIN R |-> cnt(R[i])])
       pB == TLCEval(FoldLeft(LAMBDA x, y : FFrac(x, cnt(y), n), FOne, B))
       qB == BSub(FOne, pB)
       powers(x) == TLCEval(FoldLeft(LAMBDA s, k : Append(s, FMul(s[k], x)), <<FOne>>, [k \in 1..n |-> k]))
       pBs == powers(pB)
       qBs == powers(qB)
       pR == TLCEval([i \in DOMAIN R |-> FoldLeft(LAMBDA s, k : Append(s, FFrac(s[k], cR[i], n)), <<FOne>>, [k \in 1..n |-> k])])
       ways == TLCEval(Pascal(n))
       term(k) == BMul(ways[k + 1], FoldLeft(LAMBDA x, i : FMul(x, BSub(FOne, pR[i][k + 1])), FMul(pBs[k + 1], qBs[n - k + 1]), [i \in DOMAIN R |-> i]))
   IN TLCEval(FoldLeft(LAMBDA acc, k : BAdd(acc, term(k)), <<>>, [k \in 1..(n + 1) |-> k - 1]))
\* v is a recorded value, rounded to a multiple of 1/S
Near(v, f, S) == v >= 0 /\ LET a == v * f[2]
                               b == f[1] * S IN a - b <= f[2] /\ b - a <= f[2]
NearBig(v, f, S) == v >= 0 /\ LET a == BMul(BigOf(v), f[2])
                                  b == BMul(f[1], BigOf(S)) IN BLeq(a, BAdd(b, f[2])) /\ BLeq(b, BAdd(a, f[2]))

\* v is a big number: a value rounded to a multiple of 1/S
NearBig2(v, n, d, S) == LET a == BMul(v, d)
                            b == BMul(n, S) IN BLeq(a, BAdd(b, d)) /\ BLeq(b, BAdd(a, d))

(********************************* filters *********************************)
\* val: concept -> rank of its index; what a filter may return
ByValue(D, val, thr, R) == R = {x \in D : val[x] >= thr}
Top(D, val, R) == R \subseteq D /\ \A x \in R : \A y \in D \ R : val[x] >= val[y]
ByAbs(D, val, n, R) == Top(D, val, R) /\ Cardinality(R) = (IF n < Cardinality(D) THEN n ELSE Cardinality(D))
ByPart(D, val, num, den, R) == Top(D, val, R) /\ Cardinality(R) >= (Cardinality(D) * num) \div den

(**************************** stored indices *******************************)
\* meta: concept -> (name -> value)
Put(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Store(meta, name, values) == [x \in DOMAIN meta |-> IF x \in DOMAIN values THEN Put(meta[x], name, values[x]) ELSE meta[x]]
=============================================================================
