---------------------------- MODULE Trace_Reduce ----------------------------
(* Recorded clarifications and reductions.  State: the contexts made so far, *)
(* live[k]; the operands must not change.                                    *)
EXTENDS Reduction, TraceData
VARIABLES t, l, live
Cx(v) == [o |-> v.o, a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
Good(v) == Len(v.r) = Len(v.o) /\ \A i \in DOMAIN v.r : Len(v.r[i]) = Cardinality(Rng(v.r[i]))
Bind(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Step(e) ==
   LET d == Cx(e.d)
       new == IF e.out = "ok" THEN Bind(live, e.k, d) ELSE live
   IN [live |-> new,
       bad |-> Unless(e.out = "ok", "raises: " \o e.op)
               \cup (IF e.op \in {"new", "edit"} \/ e.out # "ok" THEN {}
                     ELSE Unless(Good(e.d) /\ Outcome(e.op, live[e.from], d), e.op))
               \cup Unless(\A i \in DOMAIN e.views : Good(e.views[i].c) /\ Cx(e.views[i].c) = new[e.views[i].k], "contexts unchanged by " \o e.op)]
Init == t \in 1..Len(Tr) /\ l = 1 /\ live = <<>>
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ live' = out.live
        /\ l' = l + 1 /\ t' = t
=============================================================================
