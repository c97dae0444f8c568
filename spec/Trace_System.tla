---------------------------- MODULE Trace_System ----------------------------
(* Recorded histories of concept systems, validated against ConceptSystems. *)
EXTENDS ConceptSystems, TraceData
VARIABLES t, l, st
vars == <<t, l, st>>
\* members in records are positions in the pool of the trace, 0 for anything else
Pool(n) == [i \in DOMAIN Tr[n].h.pool |-> <<Rng(Tr[n].h.pool[i][1]), Rng(Tr[n].h.pool[i][2])>>]
SetIs(v, S) == Rng(v) = S
LookBad(P, m, q) ==
   LET S == Rng(m) IN
   Unless(CASE q.what = "members" -> q.v = m
            [] q.what = "iteration" -> q.v = m
            [] q.what = "len" -> q.v = <<Len(m)>>
            [] q.what = "parents" -> SetIs(q.v, Parents(P, S, q.c)) /\ Len(q.v) = Cardinality(Rng(q.v))
            [] q.what = "children" -> SetIs(q.v, Children(P, S, q.c)) /\ Len(q.v) = Cardinality(Rng(q.v))
            [] q.what = "filter" -> SetIs(q.v, Rng(Above(P, m, q.c)))
            [] q.what = "ideal" -> SetIs(q.v, Rng(Below(P, m, q.c)))
            [] q.what = "contains" -> q.v = <<IF q.c \in S THEN 1 ELSE 0>>
            [] q.what = "index" -> IF q.c \in S THEN q.v = <<FirstIndex(m, q.c)>> ELSE q.v = <<0>>
            [] q.what = "top" -> IF S = {} THEN q.v = <<0>> ELSE Len(q.v) = 1 /\ q.v[1] \in Maximal(P, S)
            [] q.what = "bottom" -> IF S = {} THEN q.v = <<0>> ELSE Len(q.v) = 1 /\ q.v[1] \in Minimal(P, S)
            \* the caller's list
            [] q.what = "source" -> TRUE
            [] OTHER -> FALSE, q.what \o " of a system")
Step(e) ==
   LET P == Pool(t)
       r == Apply(st, e)
   IN [st |-> r.st,
       bad |-> Unless(e.out = "ok" \/ ~ r.ok, "accepts " \o e.op) \cup Unless(e.out = "exc" \/ r.ok, "refuses " \o e.op)
               \cup UNION {LookBad(P, r.st.sys[e.q[i].s], e.q[i]) : i \in {j \in DOMAIN e.q : e.q[j].what # "source"}}
               \cup UNION {Unless(e.q[i].v = r.st.src[e.q[i].s], "list a system was made from") :
                             i \in {j \in DOMAIN e.q : e.q[j].what = "source"}}]
Init == t \in 1..Len(Tr) /\ l = 1 /\ st = Start
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ st' = out.st
        /\ l' = l + 1 /\ t' = t
=============================================================================
