----------------------- MODULE Trace_BasicExploration -----------------------
(* Recorded histories of basic explorations (several at a time), validated   *)
(* against BasicExploration.  An observation gives context, confirmed and    *)
(* open implications of every exploration, and the contexts they started from.*)
EXTENDS BasicExploration, TraceData
VARIABLES t, l, live, start
Cx(v) == [o |-> v.o, a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
Imp(v) == <<Rng(v[1]), Rng(v[2])>>
Imps(v) == [i \in DOMAIN v |-> Imp(v[i])]
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Arg(e) == [op |-> e.op, i |-> e.i, s |-> Rng(e.s), name |-> e.name]
Obs(v) == [c |-> Cx(v.c), ca |-> Imps(v.ca), co |-> Imps(v.co), oa |-> Imps(v.oa), oo |-> Imps(v.oo)]
SameImps(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : Apart(s[i]) = Apart(u[i])
StateBad(r, old, y, op) ==
   Unless(y.c = r.c, "context after " \o op)
   \cup Unless(SameImps(y.ca, r.ca), "confirmed attribute implications after " \o op)
   \cup Unless(SameImps(y.co, r.co), "confirmed object implications after " \o op)
   \cup (IF r.keep
         THEN Unless(SameImps(y.oa, old.oa) /\ SameImps(y.oo, old.oo), "open implications untouched by " \o op)
         ELSE Unless(OpenOK(r.c, r.ca, y.oa), "open attribute implications after " \o op)
              \cup Unless(OpenOK(Transpose(r.c), r.co, y.oo), "open object implications after " \o op))
   \cup Unless(ContextRespects(y.c, y.ca, y.co), "context respects the confirmed implications after " \o op)
Step(e) ==
   IF e.op = "start"
   THEN LET y == Obs(e.obs) IN
        [live |-> Bind(live, e.x, y), start |-> Bind(start, e.x, Cx(e.c)),
         bad |-> Unless(e.out = "ok", "exploration starts")
                 \cup StateBad([ok |-> TRUE, c |-> Cx(e.c), ca |-> <<>>, co |-> <<>>, keep |-> FALSE], y, y, "start")]
   ELSE LET old == live[e.x]
            r == Apply(old, Arg(e))
            y == Obs(e.obs)
        IN [live |-> Bind(live, e.x, y), start |-> start,
            bad |-> Unless(e.out = "ok" \/ ~ r.ok, "accepts " \o e.op) \cup Unless(e.out = "exc" \/ r.ok, "refuses " \o e.op)
                    \cup StateBad(r, old, y, e.op)]
OthersBad(new, st, e) == UNION {Unless(e.others[i].x = e.x \/ Obs(e.others[i].obs) = new[e.others[i].x], "another exploration untouched")
                            \cup Unless(Cx(e.others[i].c) = st[e.others[i].x], "initial context untouched") : i \in DOMAIN e.others}
Init == t \in 1..Len(Tr) /\ l = 1 /\ live = <<>> /\ start = <<>>
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN
             /\ Report(t, l, out.bad) /\ Report(t, l, OthersBad(out.live, out.start, Tr[t].ev[l]))
             /\ live' = out.live /\ start' = out.start
        /\ l' = l + 1 /\ t' = t
=============================================================================
