--------------------------- MODULE Trace_Scaling ----------------------------
(* Recorded histories of many-valued contexts, scales and scaling.           *)
EXTENDS FCA, TraceData
VARIABLES t, l, mvs, scs
S == INSTANCE Scaling WITH Reads <- LAMBDA x : IF x \in DOMAIN Tr[t].h.reads THEN Tr[t].h.reads[x] ELSE "?"
Eq(x) == IF x \in DOMAIN Tr[t].h.eq THEN Tr[t].h.eq[x] ELSE "?"
Num(w) == "n:" \o ToString(4 * w)
Pool == Rng(Tr[t].h.pool)
PoolIds == {p.id : p \in Pool}
Basic(b, p) ==
   CASE b.op = "true" -> TRUE
     [] b.op = "==" -> p.kind = b.kind /\ p.n = b.n /\ p.s = b.s
     [] b.op = "!=" -> ~ (p.kind = b.kind /\ p.n = b.n /\ p.s = b.s)
     [] OTHER -> /\ p.kind = "n" /\ b.kind = "n"
                 /\ CASE b.op = "<" -> p.n < b.n [] b.op = "<=" -> p.n <= b.n [] b.op = ">" -> p.n > b.n [] b.op = ">=" -> p.n >= b.n
HoldsFor(cond) == {p.id : p \in {q \in Pool : \A k \in DOMAIN cond : Basic(cond[k], q)}}
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
\* a scale given by its conditions / by the values its conditions hold for
Given(e) == [c |-> [i \in DOMAIN e.conds |-> TLCEval(HoldsFor(e.conds[i]))], a |-> e.a, r |-> [i \in DOMAIN e.r |-> Rng(e.r[i])]]
Made(v) == [c |-> [i \in DOMAIN v.holds |-> Rng(v.holds[i])], a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
Same == [mvs |-> mvs, scs |-> scs]
Step(e) ==
   CASE e.op = "new" -> [mvs |-> Bind(mvs, e.k, [o |-> e.o, a |-> e.a, v |-> e.v]), scs |-> scs, bad |-> Unless(e.out = "ok", "makes a many-valued context")]
     [] e.op = "extract" -> [mvs |-> Bind(mvs, e.k2, S!Extract(mvs[e.k], e.names)), scs |-> scs, bad |-> Unless(e.out = "ok", "extracts by attributes")]
     [] e.op = "condition" -> [mvs |-> Bind(mvs, e.k2, S!ByCondition(mvs[e.k], Rng(e.rows))), scs |-> scs, bad |-> Unless(e.out = "ok", "extracts by a condition")]
     [] e.op = "values" -> [mvs |-> Bind(mvs, e.k2, S!ByValues(mvs[e.k], Rng(e.vals), Eq)), scs |-> scs, bad |-> Unless(e.out = "ok", "extracts by values")]
     [] e.op = "scale" -> [mvs |-> mvs, scs |-> Bind(scs, e.s, Given(e)),
                           bad |-> Unless(e.out = "ok" /\ (e.out # "ok" \/ Made(e.made) = Given(e)), "scale made of a context")]
     [] e.op = "nominal" ->
          LET mv == mvs[e.k] IN
          [mvs |-> mvs, scs |-> Bind(scs, e.s, Made(e.made)),
           bad |-> Unless(e.out = "ok" /\ (e.out # "ok" \/ S!IsNominal(Made(e.made), S!ValuesOf(mv, e.j), PoolIds)), "nominal scale")]
     [] e.op = "ordinal" ->
          [mvs |-> mvs, scs |-> Bind(scs, e.s, Made(e.made)),
           bad |-> Unless(e.out = "ok" /\ (e.out # "ok" \/ S!IsOrdinal(Made(e.made), e.lo, e.hi, e.mode, Num, PoolIds)), "ordinal scale")]
     [] e.op = "apply" ->
          LET d == S!Scaled(mvs[e.k], [j \in DOMAIN e.scales |-> scs[e.scales[j]]])
          IN Same @@ [bad |-> IF e.out # "ok" THEN {"scales a many-valued context"}
                              ELSE Unless(e.c.o = d.o, "objects of the scaled context") \cup Unless(e.c.a = d.a, "attributes of the scaled context")
                                   \cup Unless([i \in DOMAIN e.c.r |-> Rng(e.c.r[i])] = d.r, "incidences of the scaled context")]
Others(new, e) == Unless(\A k \in DOMAIN new : k \in DOMAIN e.obs /\ e.obs[k] = new[k], "many-valued contexts after " \o e.op)
                  \cup Unless(e.kept, "scales after " \o e.op)
Init == t \in 1..Len(Tr) /\ l = 1 /\ mvs = [x \in {} |-> 0] /\ scs = [x \in {} |-> 0]
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN
             Report(t, l, out.bad) /\ Report(t, l, Others(out.mvs, Tr[t].ev[l])) /\ mvs' = out.mvs /\ scs' = out.scs
        /\ l' = l + 1 /\ t' = t
=============================================================================
