-------------------------- MODULE Trace_ManyValued --------------------------
(* Recorded histories of many-valued contexts: edits, copies, turned ones,   *)
(* sub-contexts, single values.  State: the contexts by name.                *)
EXTENDS ManyValued, TraceData
VARIABLES t, l, mvs
S == INSTANCE Scaling WITH Reads <- LAMBDA x : x
Plain == [x \in {} |-> ""]
Eq(x) == IF x \in DOMAIN Tr[t].h.eq THEN Tr[t].h.eq[x] ELSE "?"
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Made == {"new", "deepcopy", "transpose", "extract", "condition", "values"}
Cell(m, e) == e.g \in Rng(m.o) /\ e.x \in Rng(m.a)
Outcome(e) ==
   CASE e.op = "new" -> MvNew(e.o, e.a, e.v, Plain)
     [] e.op = "deepcopy" -> Yes(mvs[e.from])
     [] e.op = "transpose" -> Yes(MvTranspose(mvs[e.from]))
     [] e.op = "extract" -> IF Rng(e.names) \subseteq Rng(mvs[e.from].a) THEN Yes(S!Extract(mvs[e.from], e.names)) ELSE No(mvs[e.from])
     [] e.op = "condition" -> Yes(S!ByCondition(mvs[e.from], Rng(e.rows)))
     [] e.op = "values" -> Yes(S!ByValues(mvs[e.from], Rng(e.vals), Eq))
     [] e.op = "value" -> [ok |-> Cell(mvs[e.k], e), c |-> mvs[e.k]]
     [] OTHER -> MvApply(mvs[e.k], e, Plain)
Step(e) ==
   LET res == Outcome(e)
   IN [mvs |-> IF res.ok THEN Bind(mvs, e.k, res.c) ELSE mvs,
       bad |-> Unless(e.out = "ok" \/ ~ res.ok, "accepts " \o e.op) \cup Unless(e.out = "exc" \/ res.ok, "refuses " \o e.op)
               \cup Unless(e.op # "value" \/ e.out # "ok" \/ ~ res.ok \/ (IF e.op = "value" THEN e.got = Value(mvs[e.k], e.g, e.x) ELSE TRUE), "single value")
               \cup Unless(e.argsok, "arguments unchanged by " \o e.op)]
Views(new, e) == Unless(DOMAIN e.obs = DOMAIN new, "contexts after " \o e.op)
                 \cup Unless(\A k \in DOMAIN new \cap DOMAIN e.obs : e.obs[k] = new[k], "contents after " \o e.op)
Init == t \in 1..Len(Tr) /\ l = 1 /\ mvs = [x \in {} |-> 0]
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN
             Report(t, l, out.bad) /\ Report(t, l, Views(out.mvs, Tr[t].ev[l])) /\ mvs' = out.mvs
        /\ l' = l + 1 /\ t' = t
=============================================================================
