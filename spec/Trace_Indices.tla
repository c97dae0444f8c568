--------------------------- MODULE Trace_Indices ----------------------------
(* Recorded indices, filters and stored indices of concept lattices.         *)
EXTENDS Indices, TraceData
VARIABLES t, l, meta
Cx(v) == [o |-> v.o, a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
Members(v) == [k \in DOMAIN v |-> <<Rng(v[k][1]), Rng(v[k][2])>>]
\* meta as a map of positions to functions
Fn(S) == [n \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = n)[2]]
ObsMeta(v) == [x \in DOMAIN v |-> [k \in DOMAIN v[x] |-> Fn(Rng(v[x][k]))]]
ValueBad(c, L, e) ==
   LET S == Rng(L)
       side == CASE e.f = "intensional" -> 1 [] e.f = "extensional" -> 2 [] OTHER -> 0
       counts == IF side = 0 THEN <<>> ELSE IF e.large THEN CountsUpBig(S, side) ELSE CountsUp(S, side)
       good(k) == LET p == L[k] IN
          CASE e.f \in {"intensional", "extensional"} ->
                  IF e.large THEN NearBig2(e.v[k], counts[p], BPow2(Cardinality(p[side])), <<0, 0, 0, 1>>) ELSE e.v[k] = counts[p]
            [] e.f = "separation" -> Near(e.v[k], Separation(c, p), 100000)
            [] e.f = "extent size" -> Near(e.v[k], ExtentSize(c, p), 100000)
            [] e.f = "intent size" -> Near(e.v[k], IntentSize(c, p), 100000)
            [] e.f = "probability" -> IF Len(c.o) <= 12 /\ Len(c.a) <= 9 THEN NearBig(e.v[k], Probability(c, p), 100000000)
                                     ELSE e.v[k] >= 0 /\ NearBig2(BigOf(e.v[k]), ProbabilityFixed(c, p), FOne, <<0, 0, 1>>)
   IN Unless(e.complete, "an index for each concept and nothing else: " \o e.f) \cup
      UNION {Unless(good(k), e.f \o " of a concept") : k \in DOMAIN L}
Step(e) ==
   LET h == Tr[t].h.lats[e.lat]
       c == Cx(h.c)
       L == TLCEval(Members(h.m))
       D == DOMAIN L
       kept == Unless(e.same, "concepts after " \o e.op) \cup
               (IF e.op = "store" THEN {} ELSE Unless(ObsMeta(e.meta) = meta, "annotations after " \o e.op))
   IN CASE e.op = "index" -> [st |-> meta, bad |-> kept \cup (IF e.out = "ok" THEN ValueBad(c, L, e) ELSE {"computes " \o e.f})]
        [] e.op = "filter" ->
             [st |-> meta,
              bad |-> kept \cup
                (IF e.out # "ok" THEN {"filters by " \o e.mode}
                 ELSE Unless(Distinct(e.res) /\ Rng(e.res) \subseteq D, "a filter returns members")
                      \cup Unless(CASE e.mode = "value" -> ByValue(D, e.rank, e.thr, Rng(e.res))
                                    [] e.mode = "abs" -> ByAbs(D, e.rank, e.thr, Rng(e.res))
                                    [] e.mode = "part" -> ByPart(D, e.rank, e.thr, 4, Rng(e.res)), "filter by " \o e.mode))]
        [] e.op = "annotate" -> [st |-> [meta EXCEPT ![e.lat][e.k] = Put(meta[e.lat][e.k], e.name, e.value)], bad |-> {}]
        [] e.op = "store" ->
             LET new == [meta EXCEPT ![e.lat] = Store(meta[e.lat], e.name, e.values)]
             IN [st |-> new, bad |-> kept \cup Unless(e.out = "ok", "stores an index") \cup Unless(ObsMeta(e.meta) = new, "annotations after storing")]
Init == t \in 1..Len(Tr) /\ l = 1 /\ meta = [x \in DOMAIN Tr[t].h.lats |-> [k \in DOMAIN Tr[t].h.lats[x].m |-> [y \in {} |-> 0]]]
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ meta' = out.st
        /\ l' = l + 1 /\ t' = t
=============================================================================
