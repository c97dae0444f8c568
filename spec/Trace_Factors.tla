--------------------------- MODULE Trace_Factors ---------------------------
(* Recorded factorisations of contexts.                                      *)
EXTENDS Factors
VARIABLES t, l
Cx(v) == [o |-> v.o, a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
Fs(v) == [k \in DOMAIN v |-> [x |-> Rng(v[k].x), b |-> Rng(v[k].b), n |-> v[k].n, t |-> v[k].t]]
Once(v) == \A k \in DOMAIN v : Len(v[k].x) = Cardinality(Rng(v[k].x)) /\ Len(v[k].b) = Cardinality(Rng(v[k].b))
Bad(e) ==
   LET c == Cx(e.c)  fs == Fs(e.fs) IN
   Unless(e.out = "ok", "factorisation runs")
   \cup Unless(Cx(e.after) = c, "context untouched")
   \cup Unless(Once(e.fs), "names once per factor")
   \cup (CASE e.op = "greedy" -> GreedyBad(c, e.fid, fs, e.done)
           [] e.op = "weighted" -> WeightedBad(c, e.fid, fs, e.done)
           [] e.op = "conditional" -> ConditionalBad(c, e.fid, e.p, fs, e.done)
           [] e.op = "contexts" ->
                LET c1 == Cx(e.c1)  c2 == Cx(e.c2) IN
                FactorContextsBad(fs, c1, c2)
                \cup Unless(~ e.full \/ BooleanProduct(c1, c2) = Pairs(c), "Boolean product of the factor contexts"))
Init == t \in 1..Len(Tr) /\ l = 1
Next == l <= Len(Tr[t].ev) /\ Report(t, l, Bad(Tr[t].ev[l])) /\ l' = l + 1 /\ t' = t
=============================================================================
