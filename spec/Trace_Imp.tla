------------------------------ MODULE Trace_Imp -----------------------------
(* Recorded uses of implications, closures and covers.  State: the live     *)
(* implications, imp[k] = [k, p, c].                                         *)
EXTENDS Implications, TraceData
VARIABLES t, l, imp
vars == <<t, l, imp>>
AsImp(v) == <<Rng(v[1]), Rng(v[2])>>
AsImps(v) == {AsImp(v[i]) : i \in DOMAIN v}
AsSeq(v) == [i \in DOMAIN v |-> AsImp(v[i])]
Bind(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
ContextOf(e) == [o |-> e.o, a |-> e.a, r |-> [i \in DOMAIN e.r |-> Rng(e.r[i])]]
Effect(e) ==
   CASE e.op = "new" -> Bind(imp, e.k, [k |-> e.kind, p |-> Rng(e.p), c |-> Rng(e.c)])
     [] e.op = "parse" -> Bind(imp, e.k, Parsed(Rng(e.p), Rng(e.c)))
     [] e.op = "copy" -> Bind(imp, e.k, imp[e.from])
     \* an edit of the sets of one implication by its owner: as observed
     [] e.op = "edit" -> Bind(imp, e.k, [imp[e.k] EXCEPT !.p = Rng(e.p), !.c = Rng(e.c)])
     [] OTHER -> imp
ShowBad(new, s) ==
   Unless(s.k \in DOMAIN new /\ Rng(s.p) = new[s.k].p /\ Rng(s.c) \ Rng(s.p) = Reduce(new[s.k])
          /\ Rng(s.rc) = Reduce(new[s.k]), "stored sets")
TruthBad(i, q) ==
   IF q.partial
   THEN Unless(q.v = RespectedByPartial(i, Rng(q.x), Rng(q.q)), "respected by a partial example (" \o i.k \o ")")
   ELSE Unless(q.v = RespectedBy(i, Rng(q.x)), "respected by a set (" \o i.k \o ")")
CompareBad(i, j, q) ==
   LET same == EqualImp(i, j) IN
   Unless(q.eq = same /\ q.eq2 = same, "equality") \cup Unless(q.ne = ~ same, "inequality")
   \cup Unless(same => q.hash, "equal implications hash alike")
ClosureBad(e) ==
   LET S == Rng(e.set)
       L == AsImps(e.imps)
       good == TLCEval(Cl(S, L))
   IN UNION {Unless(Rng(e.groups[i].v) = good /\ Len(e.groups[i].v) = Cardinality(good),
                    "closure by " \o e.groups[i].names[n]) :
               <<i, n>> \in {w \in (DOMAIN e.groups) \X (1..8) : w[2] \in DOMAIN e.groups[w[1]].names}}
      \cup LET p == e.prefix
                adds == \E i \in 1..p.n : p.base[i] \in good \ S
            IN Unless(p.shape /\ p.ok = ~ adds /\ Rng(p.v) = (IF adds THEN {} ELSE good),
                      "closure with a prefix to keep")
      \cup Unless(e.fresh, "closure is a new set") \cup Unless(e.argsok, "closure leaves its arguments alone")
MinimizeBad(e) ==
   LET K == AsSeq(e.after) IN
   Unless(Equivalent(AsImps(e.before), Rng(K)), "minimising keeps the meaning")
   \cup Unless(IrredundantList(K), "minimised list is irredundant")
   \cup Unless(e.inplace, "minimises in place")
CoverBad(e) ==
   LET c == ContextOf(e) IN
   Unless(SoundFor(c, AsImps(e.v)), "cover is sound") \cup Unless(CompleteFor(c, AsImps(e.v)), "cover is complete")
   \cup Unless(e.argsok, "cover leaves the context alone")
RedundantBad(e) == Unless(e.v = Entails(AsImps(e.imps), AsImp(e.imp)), "redundancy test")
Step(e) ==
   LET new == Effect(e)
   IN [imp |-> new,
       bad |-> UNION {ShowBad(new, e.show[i]) : i \in DOMAIN e.show}
               \cup (CASE e.op = "truth" -> UNION {TruthBad(imp[e.k], e.q[i]) : i \in DOMAIN e.q}
                       [] e.op = "compare" -> CompareBad(imp[e.k], imp[e.j], e)
                       [] e.op = "closure" -> ClosureBad(e)
                       [] e.op = "minimize" -> MinimizeBad(e)
                       [] e.op = "cover" -> CoverBad(e)
                       [] e.op = "redundant" -> RedundantBad(e)
                       [] e.op = "raises" -> {"raises: " \o e.what}
                       [] OTHER -> {})]
Init == t \in 1..Len(Tr) /\ l = 1 /\ imp = <<>>
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ imp' = out.imp
        /\ l' = l + 1 /\ t' = t
=============================================================================
