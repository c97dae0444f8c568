----------------------------- MODULE MC_Diagram -----------------------------
(* Design: a drawing is made edge by edge and label by label; what is drawn *)
(* at the end determines the context - object g has attribute x exactly if  *)
(* the node of g is reached from the node of x going down.                  *)
EXTENDS Diagram
CONSTANTS N, M
VARIABLES cx, L, edges, obj, att, todo
vars == <<cx, L, edges, obj, att, todo>>
AllContexts == {[o |-> [i \in 1..n |-> i], a |-> [j \in 1..m |-> 10 + j], r |-> r] :
                  n \in {N}, m \in {M}, r \in [1..N -> SUBSET {10 + j : j \in 1..M}]}
Init == /\ cx \in AllContexts
        /\ L = SetToSeq(Concepts(cx)) /\ edges = {} /\ obj = [i \in DOMAIN L |-> {}] /\ att = [i \in DOMAIN L |-> {}]
        /\ todo = CoverPairs(L) \cup {<<i, 0>> : i \in DOMAIN L}
Draw == \E w \in todo :
          /\ todo' = todo \ {w}
          /\ IF w[2] = 0
             THEN /\ obj' = [obj EXCEPT ![w[1]] = OwnObjects(L, w[1])] /\ att' = [att EXCEPT ![w[1]] = OwnAttributes(L, w[1])]
                  /\ UNCHANGED edges
             ELSE edges' = edges \cup {w} /\ UNCHANGED <<obj, att>>
          /\ UNCHANGED <<cx, L>>
\* one order of drawing is enough for the end; all orders for the small models
First == todo # {} /\ LET w == CHOOSE x \in todo : TRUE IN
          /\ todo' = todo \ {w}
          /\ IF w[2] = 0
             THEN /\ obj' = [obj EXCEPT ![w[1]] = OwnObjects(L, w[1])] /\ att' = [att EXCEPT ![w[1]] = OwnAttributes(L, w[1])]
                  /\ UNCHANGED edges
             ELSE edges' = edges \cup {w} /\ UNCHANGED <<obj, att>>
          /\ UNCHANGED <<cx, L>>
RECURSIVE Down(_, _)
Down(S, E) == LET T == TLCEval(S \cup {p[2] : p \in {q \in E : q[1] \in S}}) IN IF T = S THEN S ELSE Down(T, E)
NodeOf(lab, x) == CHOOSE i \in DOMAIN lab : x \in lab[i]
Labelled == todo = {} => /\ \A g \in Objs(cx) : Cardinality({i \in DOMAIN L : g \in obj[i]}) = 1 /\ L[NodeOf(obj, g)][2] = Itn(cx, {g})
                         /\ \A x \in Atts(cx) : Cardinality({i \in DOMAIN L : x \in att[i]}) = 1 /\ L[NodeOf(att, x)][1] = Ext(cx, {x})
Recoverable == todo = {} => \A g \in Objs(cx), x \in Atts(cx) :
                              (x \in RowOf(cx, g)) <=> NodeOf(obj, g) \in Down({NodeOf(att, x)}, edges)
\* every edge is needed and none closes a cycle
Lean == todo = {} => \A p \in edges : p[2] \notin Down({p[1]}, edges \ {p}) /\ p[1] \notin Down({p[2]}, edges)
Connected == todo = {} => \E top \in DOMAIN L : Down({top}, edges) = DOMAIN L
=============================================================================
