--------------------------- MODULE Trace_Diagram ----------------------------
(* Recorded diagram files.                                                   *)
EXTENDS Diagram, TraceData
VARIABLES t, l, files
Members(v) == [k \in DOMAIN v |-> <<Rng(v[k][1]), Rng(v[k][2])>>]
Bind(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
At(labels, i, kind) == LET S == {k \in DOMAIN labels : labels[k].n = i /\ labels[k].kind = kind}
                       IN IF S = {} THEN <<>> ELSE labels[CHOOSE k \in S : TRUE].names
Once(labels) == \A j, k \in DOMAIN labels : (labels[j].n = labels[k].n /\ labels[j].kind = labels[k].kind) => j = k
Step(e) ==
   LET L == TLCEval(Members(e.before)) IN
   IF e.op = "refuse" THEN [st |-> files, bad |-> Unless(e.out # "ok", "an empty file name is refused") \cup Unless(e.after = e.before, "concepts")
                                                 \cup Unless(e.changed = <<>>, "files after a refusal")]
   ELSE
   [st |-> Bind(files, e.p, e.draw),
    bad |-> (IF e.out # "ok" THEN {"draws the lattice"}
             ELSE Unless(e.draw.valid, "the file is a dot graph")
                  \cup Unless(NodesOK(L, e.draw.nodes), "one node per concept")
                  \cup Unless(EdgesOK(L, e.draw.edges), "one edge per covering pair")
                  \cup Unless(Once(e.draw.labels) /\ \A k \in DOMAIN e.draw.labels : e.draw.labels[k].n \in DOMAIN L, "labels at nodes")
                  \cup Unless(\A i \in DOMAIN L : LabelOK(e.how, OwnObjects(L, i), At(e.draw.labels, i, "obj")), "object labels: " \o e.how)
                  \cup Unless(\A i \in DOMAIN L : LabelOK(e.how, OwnAttributes(L, i), At(e.draw.labels, i, "att")), "attribute labels: " \o e.how))
            \cup Unless(e.after = e.before, "concepts after drawing") \cup Unless(e.changed \in {<<>>, <<e.p>>}, "other files after drawing")]
Init == t \in 1..Len(Tr) /\ l = 1 /\ files = [x \in {} |-> <<>>]
Next == /\ l <= Len(Tr[t].ev)
        /\ LET out == TLCEval(Step(Tr[t].ev[l])) IN Report(t, l, out.bad) /\ files' = out.st
        /\ l' = l + 1 /\ t' = t
=============================================================================
