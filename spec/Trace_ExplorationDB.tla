------------------------ MODULE Trace_ExplorationDB ------------------------
(* Recorded histories of exploration databases (several at a time).          *)
EXTENDS ExplorationDB
VARIABLES t, l, live
Cx(v) == [o |-> v.o, a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
ImpSeq(v) == [i \in DOMAIN v |-> Imp(v[i])]
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Arg(e) == [op |-> e.op, s |-> Rng(e.s), name |-> e.name, old |-> e.old, imp |-> IF e.imps = <<>> THEN <<{}, {}>> ELSE Imp(e.imps[1]),
           imps |-> ImpSeq(e.imps), names |-> e.names, sets |-> [i \in DOMAIN e.sets |-> Rng(e.sets[i])]]
SameImps(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : SameImp(s[i], u[i])
Plain(v) == [i \in DOMAIN v |-> <<v[i][1], v[i][2]>>]
Step(e) ==
   IF e.op = "start"
   THEN LET y == [c |-> Cx(e.c), bg |-> ImpSeq(e.imps), cond |-> e.cond, open |-> e.obs.open] IN
        [live |-> Bind(live, e.x, y),
         bad |-> Unless(e.out = "ok", "database starts")
                 \cup Unless(Cx(e.obs.c) = y.c, "context after start")
                 \cup Unless(SameImps(ImpSeq(e.obs.bg), y.bg), "background after start")
                 \cup Unless(OpenOK(y.c, y.bg, y.cond, y.open), "open implications after start")]
   ELSE IF e.op = "done"
   THEN [live |-> live,
         bad |-> Unless(e.finished, "exploration with an expert ends")
                 \cup (IF ~ e.finished THEN {} ELSE
                       LET d == Cx(e.c) IN
                       Unless(SoundFor(d, Rng(live[e.x].bg)), "what was learned is true of the domain")
                       \cup Unless(CompleteFor(d, Rng(live[e.x].bg)), "everything about the domain was learned"))]
   ELSE LET old == live[e.x]
            a == Arg(e)
            r == Do(old, a)
            y == [c |-> Cx(e.obs.c), bg |-> ImpSeq(e.obs.bg), cond |-> old.cond, open |-> e.obs.open]
            \* several examples: whether the ones before a refused one stay is left open
            exact == e.op # "reject" \/ r.ok \/ Len(e.names) = 1 \/ y.c # old.c
            want == IF exact THEN r.c ELSE old.c
            partly == ~ r.ok /\ want # old.c
        IN [live |-> Bind(live, e.x, y),
            bad |-> Unless(e.out = "ok" \/ ~ r.ok, "accepts " \o e.op) \cup Unless(e.out = "exc" \/ r.ok, "refuses " \o e.op)
                    \cup Unless(y.c = want, "context after " \o e.op)
                    \cup Unless(SameImps(y.bg, r.bg), "background after " \o e.op)
                    \cup (IF (e.op \in {"look", "spoil"} \/ ~ r.ok) /\ ~ partly
                          THEN Unless(y.open = old.open, "open implications untouched by " \o e.op)
                          ELSE Unless(OpenOK(want, r.bg, y.cond, y.open), "open implications after " \o e.op))
                    \cup Unless(BackgroundOK(y), "examples respect the background after " \o e.op)]
OthersBad(new, e) == UNION {Unless(/\ Cx(e.others[i].obs.c) = new[e.others[i].x].c
                                   /\ SameImps(ImpSeq(e.others[i].obs.bg), new[e.others[i].x].bg)
                                   /\ e.others[i].obs.open = new[e.others[i].x].open, "another database untouched") : i \in DOMAIN e.others}
Init == t \in 1..Len(Tr) /\ l = 1 /\ live = <<>>
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN
             /\ Report(t, l, out.bad) /\ Report(t, l, OthersBad(out.live, Tr[t].ev[l]))
             /\ live' = out.live
        /\ l' = l + 1 /\ t' = t
=============================================================================
