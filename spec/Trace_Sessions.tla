--------------------------- MODULE Trace_Sessions ---------------------------
(* Recorded histories of exploration sessions, several at a time; sessions   *)
(* made by one exploration may see each other's objects (left open), but not *)
(* each other's accepted implications.                                       *)
EXTENDS Sessions
VARIABLES t, l, live
Cx(v) == [o |-> v.o, a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
ImpSeq(v) == [i \in DOMAIN v |-> Imp(v[i])]
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Arg(e) == [op |-> e.op, s |-> Rng(e.s), name |-> e.name, imp |-> IF e.imp = <<>> THEN <<{}, {}>> ELSE Imp(e.imp)]
SameImps(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : SameImp(s[i], u[i])
Obs(v) == [c |-> Cx(v.c), bg |-> ImpSeq(v.bg)]
CandidatesOK(y, v) == ~ BackgroundOK(y) \/ BasisOK(y.c, Rng(y.bg), v)
Step(e) ==
   IF e.op = "start"
   THEN LET y == Obs(e.obs) IN
        [live |-> Bind(live, e.x, y),
         bad |-> Unless(e.out = "ok", "session starts")
                 \cup Unless(y = [c |-> Cx(e.c), bg |-> <<>>], "state after start")
                 \cup Unless(CandidatesOK(y, e.obs.cand), "candidates after start")]
   ELSE LET old == live[e.x]
            r == DoSession(old, Arg(e))
            y == Obs(e.obs)
        IN [live |-> Bind([k \in DOMAIN live |-> [live[k] EXCEPT !.c = IF \E i \in DOMAIN e.others : e.others[i].x = k /\ e.others[i].same
                                                                       THEN Cx((CHOOSE o \in Rng(e.others) : o.x = k).obs.c) ELSE @]], e.x, y),
            bad |-> Unless(e.out = "ok" \/ ~ r.ok, "accepts " \o e.op) \cup Unless(e.out = "exc" \/ r.ok, "refuses " \o e.op)
                    \cup Unless(y.c = r.c, "context after " \o e.op)
                    \cup Unless(SameImps(y.bg, r.bg), "accepted implications after " \o e.op)
                    \cup Unless(CandidatesOK([c |-> r.c, bg |-> r.bg], e.obs.cand), "candidates after " \o e.op)
                    \* a session of the same exploration sees the object or does not
                    \cup UNION {LET o == e.others[i]
                                    k == o.x IN
                                Unless(Cx(o.obs.c) = live[k].c \/ (o.same /\ Cx(o.obs.c) = r.c), "context of another session")
                                \cup Unless(SameImps(ImpSeq(o.obs.bg), live[k].bg), "accepted implications of another session")
                                : i \in DOMAIN e.others}]
Init == t \in 1..Len(Tr) /\ l = 1 /\ live = <<>>
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ live' = out.live
        /\ l' = l + 1 /\ t' = t
=============================================================================
