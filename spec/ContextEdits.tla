---------------------------- MODULE ContextEdits ----------------------------
(* The editable context as a state machine (fca/context.py).  Each edit is  *)
(* one action; Apply(c, e, sp) gives the outcome of edit e in state c:      *)
(* whether it is accepted, and the context afterwards.  Names are strings;  *)
(* sp maps a name to the text it is spelled with when it has to be renamed. *)
EXTENDS FCA

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Spelled(sp, x) == IF x \in DOMAIN sp THEN sp[x] ELSE x
\* names in conflict are renamed to name_position (positions from 0), going
\* through the list once, and again until all are distinct
RECURSIVE RenamePass(_, _, _)
RenamePass(s, p, sp) ==
   IF p > Len(s) THEN s
   ELSE LET x == s[p] IN
        RenamePass(IF Count(s, x) > 1
                   THEN [i \in DOMAIN s |-> IF s[i] = x THEN Spelled(sp, x) \o "_" \o ToString(i - 1) ELSE s[i]]
                   ELSE s, p + 1, sp)
RECURSIVE Unique(_, _)
Unique(s, sp) == IF Distinct(s) THEN s ELSE Unique(RenamePass(s, 1, sp), sp)

\* rows by column positions, and back
Positions(c) == [i \in DOMAIN c.o |-> {j \in DOMAIN c.a : c.a[j] \in c.r[i]}]
Build(o, a, P, sp) ==
   LET a2 == Unique(a, sp)
   IN [o |-> Unique(o, sp), a |-> a2, r |-> [i \in DOMAIN o |-> {a2[j] : j \in P[i]}]]
Without(s, K) == LET idx == SetToSortSeq(DOMAIN s \ K, <) IN [k \in DOMAIN idx |-> s[idx[k]]]
\* positions after deleting the columns K
Squeeze(R, K) == {j - Cardinality({k \in K : k < j}) : j \in R \ K}

No(c) == [ok |-> FALSE, c |-> c]
Yes(c) == [ok |-> TRUE, c |-> c]
TrueAt(row) == {j \in DOMAIN row : row[j]}

New(o, a, tbl, sp) ==
   IF Len(tbl) # Len(o) \/ \E i \in DOMAIN tbl : Len(tbl[i]) # Len(a)
   THEN [ok |-> FALSE, c |-> [o |-> <<>>, a |-> <<>>, r |-> <<>>]]
   ELSE Yes(Build(o, a, [i \in DOMAIN o |-> TrueAt(tbl[i])], sp))
AddObject(c, row, name, sp) ==
   IF Len(row) # Len(c.a) THEN No(c)
   ELSE Yes(Build(Append(c.o, name), c.a, Append(Positions(c), TrueAt(row)), sp))
AddObjectWithIntent(c, intent, name, sp) ==
   AddObject(c, [j \in DOMAIN c.a |-> c.a[j] \in intent], name, sp)
AddAttribute(c, col, name, sp) ==
   IF Len(col) # Len(c.o) THEN No(c)
   ELSE Yes(Build(c.o, Append(c.a, name),
                  [i \in DOMAIN c.o |-> Positions(c)[i] \cup (IF col[i] THEN {Len(c.a) + 1} ELSE {})], sp))
AddAttributeWithExtent(c, extent, name, sp) ==
   AddAttribute(c, [i \in DOMAIN c.o |-> c.o[i] \in extent], name, sp)
SetObjectIntent(c, intent, name) ==
   IF ~ (intent \subseteq Atts(c)) \/ name \notin Objs(c) THEN No(c)
   ELSE Yes([c EXCEPT !.r[IndexOf(c.o, name)] = intent])
SetAttributeExtent(c, extent, name) ==
   IF ~ (extent \subseteq Objs(c)) \/ name \notin Atts(c) THEN No(c)
   ELSE Yes([c EXCEPT !.r = [i \in DOMAIN c.o |-> IF c.o[i] \in extent THEN c.r[i] \cup {name} ELSE c.r[i] \ {name}]])
DeleteObject(c, name) ==
   IF name \notin Objs(c) THEN No(c)
   ELSE LET K == {IndexOf(c.o, name)} IN Yes([c EXCEPT !.o = Without(@, K), !.r = Without(@, K)])
DeleteAttributes(c, names) ==
   IF ~ (names \subseteq Atts(c)) THEN No(c)
   ELSE Yes([o |-> c.o, a |-> Without(c.a, {j \in DOMAIN c.a : c.a[j] \in names}),
             r |-> [i \in DOMAIN c.o |-> c.r[i] \ names]])
RenameObject(c, old, name, sp) ==
   IF old \notin Objs(c) THEN No(c)
   ELSE Yes([c EXCEPT !.o = Unique([@ EXCEPT ![IndexOf(c.o, old)] = name], sp)])
RenameAttribute(c, old, name, sp) ==
   IF old \notin Atts(c) THEN No(c)
   ELSE Yes(Build(c.o, [c.a EXCEPT ![IndexOf(c.a, old)] = name], Positions(c), sp))
RemoveEmptyObjects(c) ==
   LET K == {i \in DOMAIN c.o : c.r[i] = {}} IN Yes([c EXCEPT !.o = Without(@, K), !.r = Without(@, K)])

\* one edit, given as a record with the method name and its arguments
Apply(c, e, sp) ==
   CASE e.op = "add_object" -> AddObject(c, e.row, e.name, sp)
     [] e.op = "add_object_with_intent" -> AddObjectWithIntent(c, Rng(e.set), e.name, sp)
     [] e.op = "add_attribute" -> AddAttribute(c, e.row, e.name, sp)
     [] e.op = "add_attribute_with_extent" -> AddAttributeWithExtent(c, Rng(e.set), e.name, sp)
     [] e.op = "set_object_intent" -> SetObjectIntent(c, Rng(e.set), e.name)
     [] e.op = "set_attribute_extent" -> SetAttributeExtent(c, Rng(e.set), e.name)
     [] e.op = "delete_object" -> DeleteObject(c, e.name)
     [] e.op = "delete_attribute" -> DeleteAttributes(c, {e.name})
     [] e.op = "delete_attributes" -> DeleteAttributes(c, Rng(e.set))
     [] e.op = "rename_object" -> RenameObject(c, e.old, e.name, sp)
     [] e.op = "rename_attribute" -> RenameAttribute(c, e.old, e.name, sp)
     [] e.op = "remove_empty_objects" -> RemoveEmptyObjects(c)
=============================================================================
