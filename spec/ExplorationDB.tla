--------------------------- MODULE ExplorationDB ---------------------------
(* Attribute exploration on a database of examples                          *)
(* (fca/algorithms/exploration_/exploration.py).  State: context c, the     *)
(* sequence bg of confirmed implications (background), a condition on        *)
(* premises, and open, the sequence of open implications.                    *)
EXTENDS ContextQueries

RespectsAll(S, L) == \A i \in Rng(L) : Respects(S, i)
Mentioned(L) == UNION {Prem(i) \cup Conc(i) : i \in Rng(L)}
FirstSame(L, j) == LET K == {k \in DOMAIN L : SameImp(L[k], j)}
                   IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A n \in K : k <= n
BackgroundOK(x) == \A i \in Rng(x.bg) : Holds(x.c, i)
\* what has to be open in a state
OpenOK(c, bg, cond, v) == IF cond[1] = "all" THEN BasisOK(c, Rng(bg), v) ELSE CondBasisOK(c, Rng(bg), cond, v)
Canonical(c, bg) == SetToSeq(Reduced(RelativeBasis(c, Rng(bg))))

Refuse(x) == [ok |-> FALSE, c |-> x.c, bg |-> x.bg]
Accept(x, c) == [ok |-> TRUE, c |-> c, bg |-> x.bg]
\* the outcome of a context edit
Via(x, r) == IF r.ok THEN Accept(x, r.c) ELSE Refuse(x)
Spell == <<>>
AddExample(x, name, S) ==
   IF ~ RespectsAll(S, x.bg) \/ name \in Objs(x.c) THEN Refuse(x)
   ELSE Via(x, AddObjectWithIntent(x.c, S, name, Spell))
EditExample(x, name, old, S) ==
   IF old \notin Objs(x.c) \/ (name # old /\ name \in Objs(x.c)) \/ ~ (S \subseteq Atts(x.c)) \/ ~ RespectsAll(S, x.bg)
   THEN Refuse(x)
   ELSE Via(x, RenameObject(SetObjectIntent(x.c, S, old).c, old, name, Spell))
EditAttribute(x, name, old, X) ==
   IF old \notin Atts(x.c) \/ (name # old /\ name \in Atts(x.c)) \/ ~ (X \subseteq Objs(x.c)) THEN Refuse(x)
   ELSE LET d == SetAttributeExtent(x.c, X, old).c
        IN IF \E i \in Rng(x.bg) : ~ Holds(d, i) THEN Refuse(x) ELSE Via(x, RenameAttribute(d, old, name, Spell))
\* examples given as answer to a question are added one after the other
RECURSIVE AddAll(_, _, _)
AddAll(x, names, sets) ==
   IF names = <<>> THEN [Accept(x, x.c) EXCEPT !.ok = TRUE]
   ELSE LET r == AddExample(x, Head(names), Head(sets))
        IN IF r.ok THEN AddAll([x EXCEPT !.c = r.c], Tail(names), Tail(sets)) ELSE r
RECURSIVE AppendAll(_, _)
AppendAll(bg, L) == bg \o L

Do(x, e) ==
   CASE e.op = "confirm" -> [Accept(x, x.c) EXCEPT !.bg = AppendAll(@, e.imps)]
     [] e.op = "unconfirm" -> LET k == FirstSame(x.bg, e.imp)
                              IN IF k = 0 THEN Refuse(x)
                                 ELSE [Accept(x, x.c) EXCEPT !.bg = SubSeq(x.bg, 1, k - 1) \o SubSeq(x.bg, k + 1, Len(x.bg))]
     [] e.op = "add_example" -> AddExample(x, e.name, e.s)
     [] e.op = "delete_example" -> Via(x, DeleteObject(x.c, e.name))
     [] e.op = "edit_example" -> EditExample(x, e.name, e.old, e.s)
     [] e.op = "add_attribute" -> IF e.name \in Atts(x.c) THEN Refuse(x)
                                  ELSE Via(x, AddAttributeWithExtent(x.c, e.s, e.name, Spell))
     [] e.op = "delete_attribute" -> Via(x, DeleteAttributes(x.c, {e.name}))
     [] e.op = "edit_attribute" -> EditAttribute(x, e.name, e.old, e.s)
     [] e.op = "reject" -> IF Respects(e.sets[1], e.imp) THEN Refuse(x) ELSE AddAll(x, e.names, e.sets)
     \* an example written into the context itself, then the database is told
     [] e.op = "touch" -> IF e.name = "" THEN Accept(x, x.c)
                          ELSE Via(x, AddObjectWithIntent(x.c, e.s, e.name, Spell))
     [] e.op \in {"look", "spoil", "complete"} -> Accept(x, x.c)
=============================================================================
