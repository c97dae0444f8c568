----------------------- MODULE MC_AttributeIncremental -----------------------
(* The attribute-incremental computation of the canonical basis              *)
(* (fca/algorithms/aibasis.py), preclosed set by preclosed set.  A preclosed *)
(* set is [x, s, q]: extent, set, and the conclusion of its implication, or  *)
(* {} if the set is an intent (of the attributes read so far).               *)
EXTENDS FCA
CONSTANTS N, M
VARIABLES c, i, pre, k, new, old, st, min, non, extra, basis, pc
\* i: attribute being added; k: position in pre; new: the next pre; old, st,
\* min: implications kept, of stable concepts, minimal modified ones; non:
\* modified ones that are no longer pseudo-closed; extra: modified intents
vars == <<c, i, pre, k, new, old, st, min, non, extra, basis, pc>>
Cxs == UNION {{[o |-> [x \in 1..n |-> x], a |-> [y \in 1..m |-> y], r |-> r] : r \in [1..n -> SUBSET (1..m)]} : n \in 0..N, m \in 0..M}
Part(n) == [o |-> c.o, a |-> SubSeq(c.a, 1, n), r |-> [g \in DOMAIN c.r |-> c.r[g] \cap (1..n)]]
IsConcept(p) == p.q = {}
Imp(p) == <<p.s, p.q>>
Clear == k' = 1 /\ new' = <<>> /\ old' = <<>> /\ st' = <<>> /\ min' = <<>> /\ non' = <<>> /\ extra' = <<>>
Init == /\ c \in Cxs /\ i = 1 /\ pre = << [x |-> Objs(c), s |-> {}, q |-> {}] >> /\ k = 1
        /\ new = <<>> /\ old = <<>> /\ st = <<>> /\ min = <<>> /\ non = <<>> /\ extra = <<>> /\ basis = <<>>
        /\ pc = IF c.a = <<>> THEN "end" ELSE "pass"
m == c.a[i]
Under(s, L) == \E j \in DOMAIN L : L[j][1] \subseteq s
Pass ==
   /\ pc = "pass" /\ k <= Len(pre) /\ k' = k + 1
   /\ LET p == pre[k]  E == Ext(c, {m}) IN
      IF p.x \subseteq E
      THEN IF IsConcept(p)
           THEN \* the intent gets m; it stays as a pseudo-intent unless a smaller one is there
                LET imp == <<p.s, p.s \cup {m}>>  ps == ~ Under(p.s, min) IN
                /\ min' = IF ps THEN Append(min, imp) ELSE min
                /\ new' = IF ps THEN Append(new, [x |-> p.x, s |-> p.s, q |-> p.s \cup {m}]) ELSE new
                /\ extra' = Append(extra, [p EXCEPT !.s = @ \cup {m}])
                /\ UNCHANGED <<old, st, non>>
           ELSE LET r == [p EXCEPT !.q = @ \cup {m}] IN
                IF Under(p.s, min)
                THEN non' = Append(non, [r EXCEPT !.s = @ \cup {m}]) /\ UNCHANGED <<old, st, min, new, extra>>
                ELSE min' = Append(min, Imp(r)) /\ new' = Append(new, r) /\ UNCHANGED <<old, st, non, extra>>
      ELSE IF IsConcept(p)
           THEN LET S == p.s \cup {m}
                    C == ClA(Part(i), S)
                IN IF \E j \in DOMAIN st : ~ Respects(S, st[j])
                   THEN new' = Append(new, p) /\ UNCHANGED <<old, st, min, non, extra>>
                   ELSE IF C = S
                   THEN new' = new \o <<p, [x |-> p.x \cap E, s |-> S, q |-> {}]>> /\ UNCHANGED <<old, st, min, non, extra>>
                   ELSE /\ new' = new \o <<p, [x |-> p.x \cap E, s |-> S, q |-> C]>>
                        /\ st' = Append(st, <<S, C>>) /\ UNCHANGED <<old, min, non, extra>>
           ELSE new' = Append(new, p) /\ old' = Append(old, Imp(p)) /\ UNCHANGED <<st, min, non, extra>>
   /\ UNCHANGED <<c, i, pre, basis, pc>>
PassEnds == /\ pc = "pass" /\ k > Len(pre)
            /\ pc' = "repair" /\ basis' = old \o st \o min
            /\ UNCHANGED <<c, i, pre, k, new, old, st, min, non, extra>>
\* the last of non, closed under all the others
Repair == /\ pc = "repair" /\ non # <<>>
          /\ LET p == non[Len(non)]
                 rest == SubSeq(non, 1, Len(non) - 1)
                 S == Cl(p.s, Rng(basis) \cup {Imp(rest[j]) : j \in DOMAIN rest})
                 r == [p EXCEPT !.s = S]
             IN /\ non' = rest
                /\ IF S # p.q THEN basis' = Append(basis, Imp(r)) /\ extra' = Append(extra, r)
                   ELSE UNCHANGED <<basis, extra>>
          /\ UNCHANGED <<c, i, pre, k, new, old, st, min, pc>>
\* smaller sets first, order kept otherwise
BySize == SortSeq([j \in DOMAIN extra |-> <<j, extra[j]>>],
                  LAMBDA p, q : LET u == Cardinality(p[2].s)  v == Cardinality(q[2].s) IN u < v \/ (u = v /\ p[1] < q[1]))
NextAttribute ==
   /\ pc = "repair" /\ non = <<>>
   /\ pre' = new \o [j \in DOMAIN BySize |-> BySize[j][2]]
   /\ k' = 1 /\ new' = <<>> /\ old' = <<>> /\ st' = <<>> /\ min' = <<>> /\ non' = <<>> /\ extra' = <<>>
   /\ IF i = Len(c.a) THEN pc' = "end" /\ i' = i ELSE pc' = "pass" /\ i' = i + 1
   /\ UNCHANGED <<c, basis>>
Next == Pass \/ PassEnds \/ Repair \/ NextAttribute
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "end"
Ends == <>Done
\* what holds between two attributes: the first n have been read
Read == IF pc = "end" THEN Len(c.a) ELSE i - 1
Between == pc = "end" \/ (pc = "pass" /\ k = 1)
Exact == Between => Rng(basis) = StemBase(Part(Read)) /\ Distinct(basis)
Preclosed == Between =>
   LET d == Part(Read) IN
   /\ Distinct([j \in DOMAIN pre |-> pre[j].s])
   /\ {pre[j].s : j \in {x \in DOMAIN pre : pre[x].q = {}}} = Intents(d)
   /\ {Imp(pre[j]) : j \in {x \in DOMAIN pre : pre[x].q # {}}} = StemBase(d)
   /\ \A j \in DOMAIN pre : pre[j].x = Ext(c, pre[j].s)
   \* the order is compatible with inclusion
   /\ \A j, l \in DOMAIN pre : pre[j].s \subseteq pre[l].s => j <= l
=============================================================================
