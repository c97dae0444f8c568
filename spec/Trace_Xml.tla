----------------------------- MODULE Trace_Xml ------------------------------
(* Recorded histories of writing and reading systems as XML.                 *)
EXTENDS XmlStore, TraceData
VARIABLES t, l, files
Sys(v) == [k \in DOMAIN v |-> [e |-> Rng(v[k].e), i |-> Rng(v[k].i), m |-> Rng(v[k].m)]]
Doc(v) == [objs |-> v.objs, atts |-> v.atts, cs |-> [k \in DOMAIN v.cs |-> [e |-> v.cs[k].e, i |-> v.cs[k].i, m |-> Rng(v.cs[k].m)]]]
\* each member is listed once
Listed(v) == \A k \in DOMAIN v : Distinct(v[k].e) /\ Distinct(v[k].i) /\ Distinct(v[k].m)
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Key(x) == IF x \in DOMAIN Tr[t].h.keys THEN Tr[t].h.keys[x] ELSE "?" \o x
Means(d) == TLCEval(Decode(d, Key))
Others(e) == Unless(Rng(e.changed) \subseteq (IF e.op = "read" THEN {} ELSE {e.p}), "other files after " \o e.op)
Step(e) ==
   CASE e.op = "put" -> [st |-> Bind(files, e.p, [ok |-> TRUE, s |-> Means(Doc(e.doc))]), bad |-> Unless(DocWF(Doc(e.doc)), "the driver put a document")]
     [] e.op = "break" -> [st |-> Bind(files, e.p, [ok |-> FALSE, s |-> <<>>]), bad |-> {}]
     [] e.op = "write" ->
          LET s == Sys(e.sys)
              fine == e.out = "ok" /\ e.parsed
          IN [st |-> Bind(files, e.p, [ok |-> TRUE, s |-> s]),
              bad |-> Unless(fine, "writes a document")
                      \cup Unless(~ fine \/ (DocWF(Doc(e.doc)) /\ Listed(e.doc.cs) /\ Means(Doc(e.doc)) = s), "the document holds the system")
                      \cup Unless(Sys(e.after) = s, "system after writing") \cup Others(e)]
     [] e.op = "read" ->
          LET f == files[e.p]
          IN [st |-> files, bad |-> Others(e) \cup (IF f.ok THEN Unless(e.out = "ok" /\ Sys(e.sys) = f.s, "system read with " \o e.how) ELSE {})
                            \cup Unless(\A i \in DOMAIN e.earlier : e.earlier[i], "systems read before")]
Init == t \in 1..Len(Tr) /\ l = 1 /\ files = [x \in {} |-> <<>>]
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ files' = out.st
        /\ l' = l + 1 /\ t' = t
=============================================================================
