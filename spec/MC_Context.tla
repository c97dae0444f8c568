----------------------------- MODULE MC_Context -----------------------------
(* Model checking of the editable context: in every reachable state every   *)
(* edit has the effect the relation-level definition demands.               *)
EXTENDS ContextMachine
VARIABLE c
Init == c \in Starts
Next == \E e \in Edits(c) : c' = Apply(c, e, Plain).c
Small == Len(c.o) <= MaxO /\ Len(c.a) <= MaxA /\ \A x \in Objs(c) \cup Atts(c) : Len(x) <= 3

IndexRel(x) == {p \in (DOMAIN x.o) \X (DOMAIN x.a) : x.a[p[2]] \in x.r[p[1]]}
\* renaming keeps positions and touches only members in conflict
RenamedOnly(s, t) == Len(s) = Len(t) /\ Distinct(t) /\ (Distinct(s) => s = t)
Effect(e, d) ==
  CASE e.op \in {"add_object", "add_object_with_intent"} ->
         LET B == IF e.op = "add_object" THEN {c.a[j] : j \in TrueAt(e.row)} ELSE Rng(e.set) \cap Atts(c)
         IN /\ RenamedOnly(Append(c.o, e.name), d.o) /\ d.a = c.a
            /\ e.name \notin Objs(c) => Pairs(d) = Pairs(c) \cup {<<e.name, x>> : x \in B}
            /\ IndexRel(d) = IndexRel(c) \cup {<<Len(c.o) + 1, j>> : j \in {k \in DOMAIN c.a : c.a[k] \in B}}
    [] e.op \in {"add_attribute", "add_attribute_with_extent"} ->
         LET X == IF e.op = "add_attribute" THEN {c.o[i] : i \in TrueAt(e.row)} ELSE Rng(e.set) \cap Objs(c)
         IN /\ RenamedOnly(Append(c.a, e.name), d.a) /\ d.o = c.o
            /\ e.name \notin Atts(c) => Pairs(d) = Pairs(c) \cup {<<g, e.name>> : g \in X}
            /\ IndexRel(d) = IndexRel(c) \cup {<<i, Len(c.a) + 1>> : i \in {k \in DOMAIN c.o : c.o[k] \in X}}
    [] e.op = "set_object_intent" ->
         d.o = c.o /\ d.a = c.a /\ Pairs(d) = {p \in Pairs(c) : p[1] # e.name} \cup {<<e.name, x>> : x \in Rng(e.set)}
    [] e.op = "set_attribute_extent" ->
         d.o = c.o /\ d.a = c.a /\ Pairs(d) = {p \in Pairs(c) : p[2] # e.name} \cup {<<g, e.name>> : g \in Rng(e.set)}
    [] e.op = "delete_object" ->
         /\ d.a = c.a /\ d.o = SelectSeq(c.o, LAMBDA x : x # e.name) /\ Pairs(d) = {p \in Pairs(c) : p[1] # e.name}
    [] e.op \in {"delete_attribute", "delete_attributes"} ->
         LET D == IF e.op = "delete_attribute" THEN {e.name} ELSE Rng(e.set)
         IN d.o = c.o /\ d.a = SelectSeq(c.a, LAMBDA x : x \notin D) /\ Pairs(d) = {p \in Pairs(c) : p[2] \notin D}
    [] e.op = "rename_object" ->
         d.a = c.a /\ IndexRel(d) = IndexRel(c)
         /\ RenamedOnly([i \in DOMAIN c.o |-> IF c.o[i] = e.old THEN e.name ELSE c.o[i]], d.o)
    [] e.op = "rename_attribute" ->
         d.o = c.o /\ IndexRel(d) = IndexRel(c)
         /\ RenamedOnly([i \in DOMAIN c.a |-> IF c.a[i] = e.old THEN e.name ELSE c.a[i]], d.a)
    [] e.op = "remove_empty_objects" ->
         d.a = c.a /\ Pairs(d) = Pairs(c) /\ Objs(d) = {p[1] : p \in Pairs(c)}
TypeOK == WellFormed(c)
EveryEditExact == \A e \in Edits(c) : LET res == Apply(c, e, Plain) IN
                     /\ WellFormed(res.c)
                     /\ IF res.ok THEN Effect(e, res.c) ELSE res.c = c
\* adding and deleting again gives the context back
UndoAdd == \A x \in ONames \ Objs(c) : \A r \in BoolSeqs(Len(c.a)) :
              DeleteObject(AddObject(c, r, x, Plain).c, x).c = c
UndoRename == \A x \in ONames \ Objs(c) : \A g \in Objs(c) :
                 RenameObject(RenameObject(c, g, x, Plain).c, x, g, Plain).c = c
=============================================================================
