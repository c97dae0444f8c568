----------------------------- MODULE Sessions -----------------------------
(* Exploration sessions (fca/algorithms/exploration2/exploration.py).  State *)
(* of a session: context c and the sequence bg of accepted implications.     *)
EXTENDS ExplorationDB

\* what a session answers to an operation
DoSession(x, e) ==
   LET add == IF RespectsAll(e.s, x.bg) THEN Via(x, AddObjectWithIntent(x.c, e.s, e.name, Spell)) ELSE Refuse(x)
   IN CASE e.op = "accept" -> [Accept(x, x.c) EXCEPT !.bg = Append(@, e.imp)]
        [] e.op = "reject" -> IF Respects(e.s, e.imp) THEN Refuse(x) ELSE add
        [] e.op = "add" -> add
        [] e.op \in {"look", "spoil"} -> Accept(x, x.c)
=============================================================================
