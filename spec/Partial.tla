------------------------------ MODULE Partial ------------------------------
(* Partial contexts (fca/partial_context.py): [o, a, x, q], certain rows x    *)
(* inside possible rows q; and exploration over them.                        *)
EXTENDS ContextQueries

Atp(p) == Rng(p.a)
PartialWF(p) == /\ PartialOK(p) /\ Len(p.q) = Len(p.o) /\ Distinct(p.o) /\ Distinct(p.a)
                /\ \A i \in DOMAIN p.q : p.q[i] \subseteq Atp(p)
\* rectangular tables of rows of booleans
Rectangular(T, n, m) == Len(T) = n /\ \A i \in DOMAIN T : Len(T[i]) = m
RowSets(a, T) == [i \in DOMAIN T |-> {a[j] : j \in {k \in DOMAIN a : T[i][k]}}]
NewPartial(o, a, X, Q) ==
   IF ~ Rectangular(X, Len(o), Len(a)) \/ ~ Rectangular(Q, Len(o), Len(a)) THEN [ok |-> FALSE]
   ELSE LET p == [o |-> o, a |-> a, x |-> RowSets(a, X), q |-> RowSets(a, Q)]
        IN [ok |-> PartialOK(p), p |-> p]
AddPartial(p, name, x, q) ==
   IF ~ (x \subseteq q) THEN [ok |-> FALSE, p |-> p]
   ELSE [ok |-> TRUE, p |-> [p EXCEPT !.o = Append(@, name), !.x = Append(@, x \cap Atp(p)), !.q = Append(@, q \cap Atp(p))]]
CompletePartial(p, L) == IF Completable(p, L) THEN [ok |-> TRUE, p |-> Complete(p, L)] ELSE [ok |-> FALSE, p |-> p]
Cols(p, R) == [j \in DOMAIN p.a |-> {p.o[i] : i \in {k \in DOMAIN p.o : p.a[j] \in R[k]}}]
TransposePartial(p) == [o |-> p.a, a |-> p.o, x |-> Cols(p, p.x), q |-> Cols(p, p.q)]

\* the possible total rows behind a partial row
Readings(x, q, L, M) == {S \in SUBSET M : x \subseteq S /\ S \subseteq q /\ IsClosed(S, L)}

\* reported implications
PartialBasisOK(p, bg, v) ==
   /\ NoRepeats(v)
   /\ \A i \in DOMAIN v : LET j == Imp(v[i]) IN
        /\ j[1] \subseteq Atp(p) /\ IsClosed(j[1], bg)
        /\ ~ Refuted(p, j)
        /\ j[1] \cup j[2] = XQ(p, j[1]) /\ j[2] # {} /\ j[1] \cap j[2] = {}
   \* nothing left to ask: everything else is refuted
   /\ v = <<>> => \A B \in SUBSET Atp(p) : IsClosed(B, bg) => XQ(p, B) = B
   \* nothing uncertain: the canonical basis relative to bg
   /\ (p.x = p.q /\ \A i \in bg : ~ Refuted(p, i)) => BasisOK([o |-> p.o, a |-> p.a, r |-> p.x], bg, v)
PartialCondOK(p, bg, cond, v) ==
   /\ NoRepeats(v)
   /\ \A i \in DOMAIN v : LET j == Imp(v[i]) IN ~ Refuted(p, j) /\ Cond(cond, j[1]) /\ j[1] \cup j[2] = XQ(p, j[1])

\* a database over a partial context: [p, bg]
RespectsPartial(x, q, L) == \A i \in Rng(L) : ~ RefutedBy(x, q, i)
DbAdd(d, name, x, q) ==
   IF ~ RespectsPartial(x, q, d.bg) \/ name \in Rng(d.p.o) THEN [ok |-> FALSE, p |-> d.p, bg |-> d.bg]
   ELSE LET r == AddPartial(d.p, name, x, q) IN [ok |-> r.ok, p |-> r.p, bg |-> d.bg]
DbComplete(d) == LET r == CompletePartial(d.p, Rng(d.bg)) IN [ok |-> r.ok, p |-> r.p, bg |-> d.bg]
RECURSIVE DbAddAll(_, _, _, _)
DbAddAll(d, names, xs, qs) ==
   IF names = <<>> THEN [ok |-> TRUE, p |-> d.p, bg |-> d.bg]
   ELSE LET r == DbAdd(d, Head(names), Head(xs), Head(qs))
        IN IF r.ok THEN DbAddAll([p |-> r.p, bg |-> r.bg], Tail(names), Tail(xs), Tail(qs)) ELSE r
\* outcome; and what an operation made of several steps may leave behind when
\* a later step is refused (its earlier steps, or nothing)
DbDo(d, e) ==
   LET same == [ok |-> TRUE, p |-> d.p, bg |-> d.bg]
       no == [ok |-> FALSE, p |-> d.p, bg |-> d.bg]
   IN CASE e.op = "db_confirm" -> [same EXCEPT !.bg = d.bg \o e.imps]
        [] e.op = "db_confirm_complete" -> DbComplete([p |-> d.p, bg |-> d.bg \o e.imps])
        [] e.op = "db_unconfirm" -> LET K == {k \in DOMAIN d.bg : SameImp(d.bg[k], e.imps[1])}
                                    IN IF K = {} THEN no
                                       ELSE LET k == Min(K) IN [same EXCEPT !.bg = SubSeq(d.bg, 1, k - 1) \o SubSeq(d.bg, k + 1, Len(d.bg))]
        [] e.op = "db_add" -> DbAdd(d, e.names[1], e.xs[1], e.qs[1])
        [] e.op = "db_complete" -> DbComplete(d)
        [] e.op = "db_touch" -> same
        [] e.op = "db_reject" ->
             IF ~ RefutedBy(e.xs[1], e.qs[1], e.imps[1]) THEN no
             ELSE LET r == DbAddAll(d, e.names, e.xs, e.qs) IN IF r.ok THEN DbComplete(r) ELSE r
Leftovers(d, e) ==
   LET pair(r) == [p |-> r.p, bg |-> r.bg]
   IN {pair(d)} \cup
      CASE e.op = "db_confirm_complete" -> {[p |-> d.p, bg |-> d.bg \o e.imps]}
        [] e.op = "db_reject" -> IF ~ RefutedBy(e.xs[1], e.qs[1], e.imps[1]) THEN {} ELSE {pair(DbAddAll(d, e.names, e.xs, e.qs))}
        [] OTHER -> {}
=============================================================================
