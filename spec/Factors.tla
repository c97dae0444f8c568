------------------------------ MODULE Factors ------------------------------
(* Factorisation of a context by formal concepts (fca/algorithms/factors.py) *)
(* A run is the sequence fs of factors handed out so far, each a record      *)
(* [x, b, n, t]: extent, intent, the number of incidences in its reported    *)
(* share, and the number of incidences reported as covered so far.           *)
EXTENDS FCA, TraceData

IsConcept(c, x, b) == x = Ext(c, b) /\ b = Itn(c, x)
CoveredBy(c, fs, k) == UNION {Rect(fs[i].x, fs[i].b) : i \in 1..k}
Left(c, fs, k) == Pairs(c) \ CoveredBy(c, fs, k)
\* covered / total < num / den
Below(c, left, fid) == LET T == Cardinality(Pairs(c)) IN T > 0 /\ (T - Cardinality(left)) * fid[2] < fid[1] * T

(* greedy factorisation *)
GreedyBad(c, fid, fs, done) ==
   UNION {LET U == Left(c, fs, k - 1) IN
          Unless(IsConcept(c, fs[k].x, fs[k].b), "factor is a concept")
          \cup Unless(Rect(fs[k].x, fs[k].b) \cap U # {}, "factor covers something new")
          \cup Unless(fs[k].n = Cardinality(Rect(fs[k].x, fs[k].b) \cap U), "share is the newly covered fraction")
          \cup Unless(Below(c, U, fid), "no factor after the fidelity is reached")
          \cup Unless(fs[k].b \in GreedyFactors(c, U), "factor results from greedy choices")
          : k \in DOMAIN fs}
   \cup Unless(done => ~ Below(c, Left(c, fs, Len(fs)), fid), "factors until the fidelity is reached")
   \cup Unless(done /\ fid[1] = fid[2] => CoveredBy(c, fs, Len(fs)) = Pairs(c), "the product of the factors is the relation")

(* weighted factorisation *)
WeightedBad(c, fid, fs, done) ==
   UNION {LET U == Left(c, fs, k - 1) IN
          Unless(IsConcept(c, fs[k].x, fs[k].b), "factor is a concept")
          \cup Unless(Rect(fs[k].x, fs[k].b) \cap U # {}, "factor covers something new")
          \cup Unless(Below(c, U, fid), "no factor after the fidelity is reached")
          : k \in DOMAIN fs}
   \cup Unless(done => ~ Below(c, Left(c, fs, Len(fs)), fid), "factors until the fidelity is reached")

(* conditional factorisation: at least min objects and attributes, perhaps at *)
(* least as many objects as attributes, perhaps without repetitions           *)
BigEnough(p, x, b) == /\ Cardinality(x) >= p.min /\ Cardinality(b) >= p.min
                      /\ p.objs_ge_atts => Cardinality(x) >= Cardinality(b)
Fresh(c, fs, k) == \E g \in fs[k].x : \E m \in fs[k].b :
                      \A i \in 1..(k - 1) : g \notin fs[i].x /\ m \notin fs[i].b
\* conditions that every concept with an incidence meets change nothing
NoCondition(p) == p.min <= 1 /\ ~ p.objs_ge_atts /\ p.rep
ConditionalBad(c, fid, p, fs, done) ==
   (IF NoCondition(p) THEN GreedyBad(c, fid, fs, done) ELSE {}) \cup
   UNION {Unless(IsConcept(c, fs[k].x, fs[k].b), "factor is a concept")
          \cup Unless(BigEnough(p, fs[k].x, fs[k].b), "factor is large enough")
          \cup Unless(fs[k].t <= Cardinality(Pairs(c)) /\ fs[k].t >= 0 /\ fs[k].n >= 0, "coverage is between zero and one")
          \cup Unless(fs[k].t >= (IF k = 1 THEN 0 ELSE fs[k - 1].t) + fs[k].n, "coverage grows by at least the share")
          \cup Unless(p.rep \/ Fresh(c, fs, k), "factor is built from something not used before")
          : k \in DOMAIN fs}

(* factor contexts: first objects by factors, then factors by attributes; the *)
(* factors are the positions 1..n                                            *)
FactorContextsBad(fs, c1, c2) ==
   LET n == Len(fs) IN
   IF Len(c1.a) # n \/ Len(c2.o) # n \/ c1.a # c2.o THEN {"one factor per concept"}
   ELSE Unless(Objs(c1) = UNION {fs[k].x : k \in DOMAIN fs} /\ Distinct(c1.o), "objects of the factors")
        \cup Unless(Atts(c2) = UNION {fs[k].b : k \in DOMAIN fs} /\ Distinct(c2.a), "attributes of the factors")
        \cup Unless(\A k \in DOMAIN fs : Ext(c1, {c1.a[k]}) = fs[k].x, "extents of the factors")
        \cup Unless(\A k \in DOMAIN fs : c2.r[k] = fs[k].b, "intents of the factors")
BooleanProduct(c1, c2) ==
   {<<g, m>> \in Objs(c1) \X Atts(c2) : \E k \in DOMAIN c2.o : g \in Ext(c1, {c1.a[k]}) /\ m \in c2.r[k]}
=============================================================================
