--------------------------- MODULE Trace_Printing ---------------------------
(* Recorded histories of contexts (binary, many-valued, partial) that are    *)
(* edited and printed, and printed implications, concepts, concept systems   *)
(* and explorations.  State: the contexts by name, with their kind.          *)
EXTENDS Printing, TraceData
VARIABLES t, l, st
PT == INSTANCE Partial
Imps(is) == [k \in DOMAIN is |-> [p |-> Rng(is[k].p), c |-> Rng(is[k].c)]]
Plain == [x \in {} |-> ""]
Sh == Tr[t].h.sh
Qu == Tr[t].h.qu
Ord == Tr[t].h.ord
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
TrueSets(a, T) == [i \in DOMAIN T |-> {a[j] : j \in {k \in DOMAIN a : T[i][k]}}]
Made(e) ==
   CASE e.kind = "context" -> New(e.o, e.a, e.x, Plain).c
     [] e.kind = "many-valued" -> MvNew(e.o, e.a, e.v, Plain).c
     [] e.kind = "partial" -> [o |-> e.o, a |-> e.a, x |-> TrueSets(e.a, e.x), q |-> TrueSets(e.a, e.q)]
Edited(s, e) ==
   CASE s.kind = "context" -> Apply(s.c, e, Plain)
     [] s.kind = "many-valued" -> MvApply(s.c, e, Plain)
     [] e.op = "complete" -> LET r == PT!CompletePartial(s.c, {<<Rng(e.imps[k].p), Rng(e.imps[k].c)>> : k \in DOMAIN e.imps}) IN [ok |-> r.ok, c |-> r.p]
     [] s.kind = "partial" -> Yes([s.c EXCEPT !.o = Append(@, e.name), !.x = Append(@, Rng(e.xs) \cap Rng(s.c.a)), !.q = Append(@, Rng(e.qs) \cap Rng(s.c.a))])
Text(s) ==
   CASE s.kind = "context" -> CtxText(s.c, Sh)
     [] s.kind = "many-valued" -> MvText(s.c, Sh)
     [] s.kind = "partial" -> PartialText(s.c, Sh)
PrintedOnes(cs) == [k \in DOMAIN cs |-> [e |-> Rng(cs[k].e), i |-> Rng(cs[k].i), meta |-> cs[k].meta]]
Wanted(e) ==
   CASE e.op = "show" -> Text(st[e.k])
     [] e.op = "implication" -> ImpText(Rng(e.p), Rng(e.c), e.neg, Sh, Ord)
     [] e.op = "concept" -> ConceptText(Rng(e.e), Rng(e.i), e.meta, Qu, Ord)
     [] e.op = "system" -> SystemText(PrintedOnes(e.cs), Qu, Ord)
     [] e.op = "exploration" -> ExplorationText([c |-> [o |-> e.cx.o, a |-> e.cx.a, r |-> [i \in DOMAIN e.cx.r |-> Rng(e.cx.r[i])]],
                                                 ai |-> Imps(e.ai), ca |-> Imps(e.ca), oi |-> Imps(e.oi), co |-> Imps(e.co)], Sh, Ord)
Step(e) ==
   CASE e.op = "new" -> [st |-> Bind(st, e.k, [kind |-> e.kind, c |-> Made(e)]), bad |-> Unless(e.out = "ok", "makes a " \o e.kind \o " context")]
     [] e.op = "edit" -> LET r == Edited(st[e.k], [e EXCEPT !.op = e.edit]) IN
          [st |-> Bind(st, e.k, [st[e.k] EXCEPT !.c = r.c]), bad |-> Unless((e.out = "ok") = r.ok, "edit before printing")]
     [] OTHER -> [st |-> st, bad |-> Unless(e.out = "ok", "prints " \o e.what)
                                     \cup Unless(e.out # "ok" \/ e.text = Wanted(e), "printed form of " \o e.what)
                                     \cup Unless(e.kept, "content after printing " \o e.what)]
Init == t \in 1..Len(Tr) /\ l = 1 /\ st = [x \in {} |-> 0]
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ st' = out.st
        /\ l' = l + 1 /\ t' = t
=============================================================================
