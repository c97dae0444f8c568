--------------------------- MODULE ConceptSystems ---------------------------
(* Concept systems (fca/concept_system.py) as a state machine.  The state   *)
(* holds several live systems and the caller's lists they were made from:   *)
(* functions from names to sequences of members.  A member is a number, the *)
(* index of a pair <<extent, intent>> in the pool P.                        *)
EXTENDS FCA

IntentOf(P, x) == P[x][2]
Less(P, x, y) == IntentOf(P, y) \subseteq IntentOf(P, x) /\ IntentOf(P, x) # IntentOf(P, y)    \* x below y
Parents(P, S, x) == LET U == TLCEval({y \in S : Less(P, x, y)}) IN {y \in U : ~ \E z \in U : Less(P, z, y)}
Children(P, S, x) == LET D == TLCEval({y \in S : Less(P, y, x)}) IN {y \in D : ~ \E z \in D : Less(P, y, z)}
Above(P, s, x) == SelectSeq(s, LAMBDA y : Less(P, x, y))
Below(P, s, x) == SelectSeq(s, LAMBDA y : Less(P, y, x))
Maximal(P, S) == {x \in S : \A y \in S : ~ Less(P, x, y)}
Minimal(P, S) == {x \in S : \A y \in S : ~ Less(P, y, x)}
FirstIndex(s, x) == CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
DropFirst(s, x) == RemoveAt(s, FirstIndex(s, x))

\* st = [sys, src]; the outcome of one operation
Start == [sys |-> <<>>, src |-> <<>>]
Bind(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
OK(st) == [ok |-> TRUE, st |-> st]
Refuse(st) == [ok |-> FALSE, st |-> st]
Apply(st, e) ==
   CASE e.op = "list" -> OK([st EXCEPT !.src = Bind(@, e.l, e.v)])
     \* without a list: the empty system
     [] e.op = "system" -> OK([st EXCEPT !.sys = Bind(@, e.s, IF e.l = "" THEN <<>> ELSE st.src[e.l])])
     [] e.op = "append" -> OK([st EXCEPT !.sys[e.s] = Append(@, e.c)])
     [] e.op = "append_other" -> Refuse(st)
     [] e.op = "remove" -> IF e.c \in Rng(st.sys[e.s]) THEN OK([st EXCEPT !.sys[e.s] = DropFirst(@, e.c)])
                           ELSE Refuse(st)
     [] e.op = "list_append" -> OK([st EXCEPT !.src[e.l] = Append(@, e.c)])
     [] e.op = "list_clear" -> OK([st EXCEPT !.src[e.l] = <<>>])
     [] e.op = "look" -> OK(st)
=============================================================================
