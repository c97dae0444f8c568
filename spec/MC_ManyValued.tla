--------------------------- MODULE MC_ManyValued ----------------------------
(* Every edit of every small many-valued context.  For each set of values    *)
(* the edits are, on the cells holding one of them, the edits of a binary    *)
(* context (ContextEdits): a refinement, one for each set.                   *)
EXTENDS ManyValued, Json
CONSTANTS Names, Vals, MaxO, MaxA, Depth
VARIABLES m, hist
vars == <<m, hist>>
Plain == [x \in {} |-> ""]
Empty == [o |-> <<>>, a |-> <<>>, v |-> <<>>]
Init == m = Empty /\ hist = <<>>
Rows(n) == [1..n -> Vals]
Edits == [op : {"add_object"}, row : Rows(Len(m.a)), name : Names]
         \cup [op : {"add_attribute"}, row : Rows(Len(m.o)), name : Names]
         \cup [op : {"delete_object", "delete_attribute"}, name : Names]
         \cup [op : {"delete_attributes"}, set : {SetToSeq(S) : S \in SUBSET Names}]
         \cup [op : {"rename_object", "rename_attribute"}, old : Names, name : Names]
Wrong == [op : {"add_object"}, row : Rows(Len(m.a) + 1), name : Names] \cup [op : {"add_attribute"}, row : Rows(Len(m.o) + 1), name : Names]
Next == \E e \in Edits \cup Wrong : m' = MvApply(m, e, Plain).c /\ hist' = Append(hist, e)
Small == Len(m.o) <= MaxO /\ Len(m.a) <= MaxA /\ \A x \in Rng(m.o) \cup Rng(m.a) : Len(x) <= 3
View == m
WF(x) == Distinct(x.o) /\ Distinct(x.a) /\ Len(x.v) = Len(x.o) /\ \A i \in DOMAIN x.v : Len(x.v[i]) = Len(x.a)
\* an edit of values seen as one of cells in T
Seen(e, T) == IF e.op \in {"add_object", "add_attribute"} THEN [e EXCEPT !.row = [k \in DOMAIN e.row |-> e.row[k] \in T]] ELSE e
Refines == \A e \in Edits \cup Wrong : LET r == MvApply(m, e, Plain) IN
              /\ WF(r.c) /\ (~ r.ok => r.c = m)
              /\ \A T \in SUBSET Vals : LET b == Apply(Shadow(m, T), Seen(e, T), Plain) IN
                                        b.ok = r.ok /\ b.c = Shadow(r.c, T)
\* cells not concerned keep their values
Keeps == \A e \in Edits : e.op \in {"delete_object", "delete_attribute", "delete_attributes"} =>
            LET d == MvApply(m, e, Plain).c IN \A g \in Rng(d.o), x \in Rng(d.a) : Value(d, g, x) = Value(m, g, x)
Turned == MvTranspose(MvTranspose(m)) = m /\ WF(MvTranspose(m))
          /\ \A g \in Rng(m.o), x \in Rng(m.a) : Value(MvTranspose(m), x, g) = Value(m, g, x)
\* adding an attribute is adding an object to the transposition
Dual == \A e \in [op : {"add_attribute"}, row : Rows(Len(m.o)), name : Names] :
           MvApply(m, e, Plain).c = MvTranspose(MvAddObject(MvTranspose(m), e.row, e.name, Plain).c)
Invariant == WF(m) /\ Refines /\ Keeps /\ (m.o # <<>> /\ m.a # <<>> => Turned /\ Dual)
Pick(S) == CHOOSE x \in {RandomElement(S)} : TRUE
Kinds == {"add_object", "add_attribute", "delete_object", "delete_attribute", "delete_attributes", "rename_object", "rename_attribute"}
Random == Len(hist) < Depth /\ \E k \in {IF Len(m.o) * Len(m.a) < 2 THEN Pick({"add_object", "add_attribute"}) ELSE Pick(Kinds)} :
             \E e \in {Pick({x \in Edits : x.op = k})} : m' = MvApply(m, e, Plain).c /\ hist' = Append(hist, e)
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson(hist))
=============================================================================
