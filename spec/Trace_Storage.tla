--------------------------- MODULE Trace_Storage ---------------------------
(* Recorded histories of writing and reading files.                          *)
EXTENDS Storage, TraceData
VARIABLES t, l, files
Ctx(v) == IF "v" \in DOMAIN v THEN [o |-> v.o, a |-> v.a, v |-> v.v]
          ELSE [o |-> v.o, a |-> v.a, r |-> [i \in DOMAIN v.r |-> Rng(v.r[i])]]
\* values of a many-valued context come back as their texts
AsRead(c) == IF "v" \in DOMAIN c THEN [c EXCEPT !.v = [i \in DOMAIN c.v |-> Map(c.v[i], LAMBDA x : AsStr(Text(x)))]] ELSE c
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Others(e) == Unless(DOMAIN e.obs = DOMAIN files \cup {e.p} /\
                    \A p \in DOMAIN files : p # e.p => e.obs[p] = files[p], "other files after " \o e.op)
Step(e) ==
   CASE e.op = "put" -> [st |-> e.obs, bad |-> Unless(e.obs[e.p] = e.lines, "the driver put the file")]
     [] e.op = "write" ->
          [st |-> IF e.p \in DOMAIN e.obs THEN Bind(files, e.p, e.obs[e.p]) ELSE files,
           bad |-> Unless(e.out = "ok" /\ e.p \in DOMAIN e.obs, "writes " \o e.f)
                   \cup Unless(e.out # "ok" \/ e.p \notin DOMAIN e.obs \/ WrittenOK(e.f, Ctx(e.c), e.obs[e.p]), "content of the written file: " \o e.f)
                   \cup Unless(Ctx(e.after) = Ctx(e.c), "context after writing " \o e.f) \cup Others(e)]
     [] e.op = "read" ->
          LET ok == e.p \in DOMAIN files /\ Readable(e.f, files[e.p])
              c == Parse(e.f, files[e.p])
          IN [st |-> files,
              bad |-> (IF ok THEN Unless(e.out = "ok" /\ Follows(e.f, files[e.p]) /\ Ctx(e.c) = c, "context read: " \o e.f)
                       ELSE Unless(e.out # "ok", "refuses what is no such file: " \o e.f))
                      \cup Unless(e.obs = files, "files after reading")]
     \* what was written is what is read: the claim itself, without the format
     [] e.op = "roundtrip" ->
          [st |-> IF e.p \in DOMAIN e.obs THEN Bind(files, e.p, e.obs[e.p]) ELSE files,
           bad |-> Unless(e.out = "ok" /\ (e.out # "ok" \/ Ctx(e.back) = AsRead(Ctx(e.c))), "writing and reading back: " \o e.f)]
Init == t \in 1..Len(Tr) /\ l = 1 /\ files = [x \in {} |-> <<>>]
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ files' = out.st
        /\ l' = l + 1 /\ t' = t
=============================================================================
