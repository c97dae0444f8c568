--------------------------- MODULE Trace_Partial ---------------------------
(* Recorded histories of partial contexts and databases over them.           *)
EXTENDS Partial
VARIABLES t, l, live, dbs
Px(v) == [o |-> v.o, a |-> v.a, x |-> [i \in DOMAIN v.x |-> Rng(v.x[i])], q |-> [i \in DOMAIN v.q |-> Rng(v.q[i])]]
ImpSeq(v) == [i \in DOMAIN v |-> Imp(v[i])]
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
SameImps(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : SameImp(s[i], u[i])
Sets(v) == [i \in DOMAIN v |-> Rng(v[i])]
Arg(e) == [op |-> e.op, imps |-> ImpSeq(e.imps), names |-> e.names, xs |-> Sets(e.xs), qs |-> Sets(e.qs)]
DbObs(e) == [p |-> Px(e.obs[e.k]), bg |-> ImpSeq(e.db.bg)]
Same == [live |-> live, dbs |-> dbs]
Verdict(e, ok) == Unless(e.out = "ok" \/ ~ ok, "accepts " \o e.op) \cup Unless(e.out = "exc" \/ ok, "refuses " \o e.op)
OpenBad(d, cond, v, op) == Unless(IF cond[1] = "all" THEN PartialBasisOK(d.p, Rng(d.bg), v) ELSE PartialCondOK(d.p, Rng(d.bg), cond, v),
                                  "implications reported after " \o op)
Step(e) ==
   CASE e.op = "new" ->
          LET r == NewPartial(e.o, e.a, e.tx, e.tq)
          IN [live |-> IF e.out = "ok" /\ r.ok THEN Bind(live, e.k, r.p) ELSE live, dbs |-> dbs, bad |-> Verdict(e, r.ok)]
     [] e.op = "subset" ->
          LET ok == Len(e.tx) = Len(e.tq) /\ (Len(e.tx) > 0 => Len(e.tx[1]) = Len(e.tq[1]))
          IN Same @@ [bad |-> IF ~ ok THEN Unless(e.out = "exc", "comparison of tables of different size is refused")
                              ELSE Unless(e.out = "ok" /\ e.answer =
                                          (\A i \in DOMAIN e.tx : \A j \in DOMAIN e.tx[i] : e.tx[i][j] => e.tq[i][j]), "comparison of tables")]
     [] e.op = "add" ->
          LET r == AddPartial(live[e.k], e.names[1], Rng(e.xs[1]), Rng(e.qs[1]))
          IN [live |-> [live EXCEPT ![e.k] = r.p], dbs |-> dbs, bad |-> Verdict(e, r.ok)]
     [] e.op = "complete" ->
          LET r == CompletePartial(live[e.k], Rng(ImpSeq(e.imps)))
          IN [live |-> [live EXCEPT ![e.k] = r.p], dbs |-> dbs, bad |-> Verdict(e, r.ok)]
     [] e.op = "closures" ->
          Same @@ [bad |-> UNION {Unless(Rng(e.ans[i][2]) = XQ(live[e.k], Rng(e.ans[i][1])), "certain/possible closure") : i \in DOMAIN e.ans}]
     [] e.op = "implications" ->
          Same @@ [bad |-> Unless(e.out = "ok", "reports implications") \cup
                           OpenBad([p |-> live[e.k], bg |-> ImpSeq(e.imps)], e.cond, e.rep, e.how)]
     [] e.op = "transpose" -> [live |-> Bind(live, e.k2, TransposePartial(live[e.k])), dbs |-> dbs, bad |-> Unless(e.out = "ok", "transposes")]
     [] e.op = "deepcopy" -> [live |-> Bind(live, e.k2, live[e.k]), dbs |-> dbs, bad |-> Unless(e.out = "ok", "copies")]
     [] e.op = "db_start" ->
          LET d == [p |-> live[e.k], bg |-> ImpSeq(e.imps)]
          IN [live |-> live, dbs |-> Bind(dbs, e.k, [bg |-> d.bg, cond |-> e.cond, open |-> e.db.open]),
              bad |-> Unless(e.out = "ok", "database starts") \cup Unless(SameImps(DbObs(e).bg, d.bg), "background after start")
                      \cup OpenBad(d, e.cond, e.db.open, e.op)]
     [] e.op = "db_done" ->
          LET c == [o |-> e.c.o, a |-> e.c.a, r |-> [i \in DOMAIN e.c.r |-> Rng(e.c.r[i])]]
          IN Same @@ [bad |-> Unless(e.finished, "exploration of a hidden domain ends")
                              \cup Unless(~ e.finished \/ ExactFor(c, Rng(dbs[e.k].bg)), "the implications of the hidden domain were learned")]
     [] OTHER ->
          LET d == [p |-> live[e.k], bg |-> dbs[e.k].bg]
              a == Arg(e)
              r == DbDo(d, a)
              y == DbObs(e)
              fits(z) == y.p = z.p /\ SameImps(y.bg, z.bg)
              good == IF r.ok THEN fits(r) ELSE \E z \in Leftovers(d, a) : fits(z)
              unchanged == y.p = d.p /\ SameImps(y.bg, d.bg) /\ ~ r.ok
          IN [live |-> [live EXCEPT ![e.k] = y.p], dbs |-> [dbs EXCEPT ![e.k].bg = y.bg, ![e.k].open = e.db.open],
              bad |-> Verdict(e, r.ok) \cup Unless(good, "state after " \o e.op)
                      \cup Unless(PartialWF(y.p), "certain within possible after " \o e.op)
                      \cup (IF unchanged THEN Unless(e.db.open = dbs[e.k].open, "open implications untouched by " \o e.op)
                            ELSE OpenBad(y, dbs[e.k].cond, e.db.open, e.op))]
OthersBad(new, e) == Unless(\A k \in DOMAIN new : k \in DOMAIN e.obs /\ Px(e.obs[k]) = new[k], "partial contexts after " \o e.op)
Init == t \in 1..Len(Tr) /\ l = 1 /\ live = <<>> /\ dbs = <<>>
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN
             /\ Report(t, l, out.bad) /\ Report(t, l, OthersBad(out.live, Tr[t].ev[l]))
             /\ live' = out.live /\ dbs' = out.dbs
        /\ l' = l + 1 /\ t' = t
=============================================================================
