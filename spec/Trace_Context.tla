--------------------------- MODULE Trace_Context ----------------------------
(* Recorded histories of edits, constructions and analyses on several live  *)
(* contexts (originals, copies, contexts derived from others), validated    *)
(* step by step.  State: live[k] is the abstract context number k.          *)
EXTENDS ContextQueries, Constructions
VARIABLES t, l, live
vars == <<t, l, live>>

\* spelling of integer names ("#7" is the integer 7)
Spell == Tr[t].h.ints

ViewOK(c, v) == v.o = c.o /\ v.a = c.a /\ Len(v.r) = Len(c.r)
                /\ \A i \in DOMAIN c.r : Rng(v.r[i]) = c.r[i] /\ Len(v.r[i]) = Cardinality(c.r[i])
\* every view of every live context shows the abstract context
ViewsBad(new, views) ==
   UNION {{"view " \o views[i].names[n] : n \in DOMAIN views[i].names} :
          i \in {j \in DOMAIN views : IF views[j].k \in DOMAIN new THEN ~ ViewOK(new[views[j].k], views[j]) ELSE TRUE}}

Outcome(e) ==
   CASE e.op = "new" -> New(e.o, e.a, e.tbl, Spell)
     [] e.op \in {"deepcopy", "scale"} -> Yes(live[e.from])
     [] e.op = "read" -> Yes(live[e.k])
     [] e.op \in QueryOps -> [ok |-> e.out = "ok", c |-> live[e.k]]
     [] e.op \in ConstructionOps -> Construct(live, e, Spell)
     [] OTHER -> Apply(live[e.k], e, Spell)
\* the contexts an event works on; after a reported violation one may be missing
Works(e) == (IF e.op \in {"new", "random", "deepcopy", "scale"} \cup (ConstructionOps \ {"equal"}) THEN {} ELSE {e.k})
            \cup (IF "from" \in DOMAIN e THEN {e.from} ELSE {}) \cup (IF "with" \in DOMAIN e THEN {e.with} ELSE {})
Step(e) ==
   IF ~ (Works(e) \subseteq DOMAIN live) THEN [live |-> live, bad |-> {"works on a context that exists"}] ELSE
   LET res == Outcome(e)
       new == IF res.ok THEN [x \in DOMAIN live \cup {e.k} |-> IF x = e.k THEN res.c ELSE live[x]] ELSE live
   IN [live |-> new,
       bad |-> Unless(e.out = "ok" \/ ~ res.ok, "accepts " \o e.op)
               \cup Unless(e.out = "exc" \/ res.ok, "refuses " \o e.op)
               \cup Unless(e.argsok, "arguments unchanged by " \o e.op)
               \cup Unless(e.keptok, "results handed out earlier unchanged by " \o e.op)
               \cup (IF e.op \in QueryOps THEN QueryBad(live[e.k], e) ELSE {})
               \cup (IF e.op \in EqualityOps THEN EqualityBad(live, e) ELSE {})
               \cup {f \o " after " \o e.op : f \in ViewsBad(new, e.views)}
               \cup Unless(~ e.seen \/ {e.views[i].k : i \in DOMAIN e.views} = DOMAIN new, "all live contexts observed")]

Init == t \in 1..Len(Tr) /\ l = 1 /\ live = <<>>
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == Step(Tr[t].ev[l]) IN Report(t, l, out.bad) /\ live' = out.live
        /\ l' = l + 1 /\ t' = t
=============================================================================
