--------------------------- MODULE Trace_Patterns ---------------------------
(* Recorded histories of pattern explorations, several at a time and over    *)
(* shared initial contexts.  State: the explorations, the generator of one's *)
(* own each was given (if any), and the initial contexts.                    *)
EXTENDS Patterns, TraceData
VARIABLES t, l, live, own, base
Cx(v) == [o |-> v.o, a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Same == [live |-> live, own |-> own, base |-> base]
Having(c, P) == {i \in DOMAIN c.o : P \subseteq c.r[i]}
\* sequence of <<name, attributes>>, one for each of the rows I, in any order
Examples(c, I, got) == /\ Len(got) = Cardinality(I)
                       /\ {<<got[k][1], Rng(got[k][2])>> : k \in DOMAIN got} = {<<c.o[i], c.r[i]>> : i \in I}
Step(e) ==
   CASE e.op = "context" -> [Same EXCEPT !.base = Bind(base, e.k, Cx(e.c))] @@ [bad |-> {}]
     [] e.op = "edit" -> LET r == Apply(base[e.k], [e EXCEPT !.op = e.edit], Spell) IN
          [Same EXCEPT !.base = Bind(base, e.k, r.c)] @@ [bad |-> Unless((e.out = "ok") = r.ok, "edit of an initial context")]
     [] e.op = "start" ->
          LET r == StartPat(base[e.pos], base[e.neg]) IN
          IF ~ r.ok THEN Same @@ [bad |-> Unless(e.out = "exc", "refuses contexts over different attributes")]
          ELSE [live |-> Bind(live, e.x, r.s), own |-> Bind(own, e.x, [yes |-> e.own, ps |-> {Rng(e.ps[i]) : i \in DOMAIN e.ps}]),
                base |-> base, bad |-> Unless(e.out = "ok", "starts an exploration")]
     [] e.op \in {"confirm", "positive", "negative"} ->
          LET r == Do(live[e.x], [op |-> e.op, p |-> Rng(e.p), name |-> e.name, b |-> Rng(e.b)]) IN
          [Same EXCEPT !.live = Bind(live, e.x, r.s)]
          @@ [bad |-> Unless(e.out = "ok" \/ ~ r.ok, "accepts " \o e.op) \cup Unless(e.out = "exc" \/ r.ok, "refuses " \o e.op)]
     [] OTHER -> LET s == live[e.x] IN
          Same @@ [bad |-> IF e.out # "ok" THEN {"answers " \o e.op}
          ELSE Unless(CASE e.op = "examples" -> Examples(s.pos, Having(s.pos, Rng(e.p)), e.got)
                        [] e.op = "unexplained" -> Examples(s.pos, Unexplained(s), e.got)
                        [] e.op = "explained" -> e.got = Explained(s, Rng(e.p))
                        [] e.op = "listed" -> ListedOK(s, own[e.x], [k \in DOMAIN e.got |-> <<Rng(e.got[k][1]), e.got[k][2]>>])
                        [] e.op = "patterns" -> PatternsOK(s, own[e.x], [k \in DOMAIN e.got |-> <<Rng(e.got[k][1]), Rng(e.got[k][2])>>])
                        [] e.op = "ask" -> e.got = e.want
                        [] OTHER -> FALSE, e.op)]
Views(new, e) ==
   Unless(DOMAIN new.live = {e.obs[i].x : i \in DOMAIN e.obs}, "explorations")
   \cup UNION {LET s == new.live[e.obs[i].x] IN
               Unless(Cx(e.obs[i].pos) = s.pos, "positive examples after " \o e.op)
               \cup Unless(Cx(e.obs[i].neg) = s.neg, "negative examples after " \o e.op)
               \cup Unless([k \in DOMAIN e.obs[i].conf |-> Rng(e.obs[i].conf[k])] = s.conf, "confirmed patterns after " \o e.op)
               : i \in {j \in DOMAIN e.obs : e.obs[j].x \in DOMAIN new.live}}
   \cup UNION {Unless(Cx(e.bases[i].c) = new.base[e.bases[i].k], "initial contexts after " \o e.op) : i \in DOMAIN e.bases}
Init == t \in 1..Len(Tr) /\ l = 1 /\ live = [x \in {} |-> 0] /\ own = [x \in {} |-> 0] /\ base = [x \in {} |-> 0]
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN
             Report(t, l, out.bad) /\ Report(t, l, Views(out, Tr[t].ev[l]))
             /\ live' = out.live /\ own' = out.own /\ base' = out.base
        /\ l' = l + 1 /\ t' = t
=============================================================================
