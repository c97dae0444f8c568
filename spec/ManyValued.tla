----------------------------- MODULE ManyValued -----------------------------
(* The editable many-valued context (fca/mvcontext.py): [o, a, v], v the     *)
(* rows of values.  Its edits are those of a binary context, on values.      *)
EXTENDS ContextEdits
MvBuild(o, a, v, sp) == [o |-> Unique(o, sp), a |-> Unique(a, sp), v |-> v]
MvNew(o, a, v, sp) == IF Len(v) # Len(o) \/ \E i \in DOMAIN v : Len(v[i]) # Len(a)
                      THEN [ok |-> FALSE, c |-> [o |-> <<>>, a |-> <<>>, v |-> <<>>]] ELSE Yes(MvBuild(o, a, v, sp))
MvAddObject(m, row, name, sp) ==
   IF Len(row) # Len(m.a) THEN No(m) ELSE Yes(MvBuild(Append(m.o, name), m.a, Append(m.v, row), sp))
MvAddAttribute(m, col, name, sp) ==
   IF Len(col) # Len(m.o) THEN No(m)
   ELSE Yes(MvBuild(m.o, Append(m.a, name), [i \in DOMAIN m.o |-> Append(m.v[i], col[i])], sp))
MvDeleteObject(m, name) ==
   IF name \notin Rng(m.o) THEN No(m)
   ELSE LET K == {IndexOf(m.o, name)} IN Yes([m EXCEPT !.o = Without(@, K), !.v = Without(@, K)])
MvDeleteAttributes(m, names) ==
   IF ~ (names \subseteq Rng(m.a)) THEN No(m)
   ELSE LET K == {j \in DOMAIN m.a : m.a[j] \in names}
        IN Yes([m EXCEPT !.a = Without(@, K), !.v = [i \in DOMAIN m.o |-> Without(m.v[i], K)]])
MvRenameObject(m, old, name, sp) ==
   IF old \notin Rng(m.o) THEN No(m) ELSE Yes([m EXCEPT !.o = Unique([@ EXCEPT ![IndexOf(m.o, old)] = name], sp)])
MvRenameAttribute(m, old, name, sp) ==
   IF old \notin Rng(m.a) THEN No(m) ELSE Yes([m EXCEPT !.a = Unique([@ EXCEPT ![IndexOf(m.a, old)] = name], sp)])
MvTranspose(m) == [o |-> m.a, a |-> m.o, v |-> [j \in DOMAIN m.a |-> [i \in DOMAIN m.o |-> m.v[i][j]]]]
MvApply(m, e, sp) ==
   CASE e.op = "add_object" -> MvAddObject(m, e.row, e.name, sp)
     [] e.op = "add_attribute" -> MvAddAttribute(m, e.row, e.name, sp)
     [] e.op = "delete_object" -> MvDeleteObject(m, e.name)
     [] e.op = "delete_attribute" -> MvDeleteAttributes(m, {e.name})
     [] e.op = "delete_attributes" -> MvDeleteAttributes(m, Rng(e.set))
     [] e.op = "rename_object" -> MvRenameObject(m, e.old, e.name, sp)
     [] e.op = "rename_attribute" -> MvRenameAttribute(m, e.old, e.name, sp)
\* the binary context of the cells whose value is in T
Shadow(m, T) == [o |-> m.o, a |-> m.a, r |-> [i \in DOMAIN m.o |-> {m.a[j] : j \in {k \in DOMAIN m.a : m.v[i][k] \in T}}]]
Value(m, g, x) == m.v[IndexOf(m.o, g)][IndexOf(m.a, x)]
=============================================================================
