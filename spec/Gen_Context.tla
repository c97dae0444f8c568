---------------------------- MODULE Gen_Context -----------------------------
(* Behaviours of ContextMachine, printed as JSON for replay.                *)
EXTENDS ContextMachine
VARIABLES c, hist
Init == /\ c \in Starts
        /\ hist = <<[op |-> "new", o |-> c.o, a |-> c.a,
                     tbl |-> [i \in DOMAIN c.o |-> [j \in DOMAIN c.a |-> c.a[j] \in c.r[i]]]]>>
\* in simulation, first pick the kind of edit, so that rare kinds are frequent
Pick(S) == LET k == RandomElement({e.op : e \in S}) IN RandomElement({e \in S : e.op = k})
Step(e) == c' = Apply(c, e, Plain).c /\ hist' = Append(hist, e)
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson(hist))
Small == Len(c.o) <= MaxO /\ Len(c.a) <= MaxA
Random == Len(hist) < Depth /\ Small /\ Step(Pick(Edits(c)))
Every == Len(hist) < Depth /\ Small /\ \E e \in Edits(c) : Step(e)
=============================================================================
