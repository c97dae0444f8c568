---------------------------- MODULE Constructions ---------------------------
(* Contexts made from contexts: transposition, complement, compound,        *)
(* sub-contexts, Boolean product; and equality of contexts.                 *)
EXTENDS ContextEdits

ConstructionOps == {"transpose", "complementary", "compound", "extract_subcontext", "filter_by_attributes", "product",
                    "equal", "random"}
EqualityOps == {"equal"}
\* rebuilt by positions so that clashing names are renamed as in a new context
Complementary(c, sp) ==
   Build(c.o, [j \in DOMAIN c.a |-> "not " \o c.a[j]],
         [i \in DOMAIN c.o |-> DOMAIN c.a \ Positions(c)[i]], sp)
Compound(c, sp) ==
   LET n == Len(c.a) d == Complementary(c, sp)
   IN Build(c.o, c.a \o d.a, [i \in DOMAIN c.o |-> Positions(c)[i] \cup {n + j : j \in Positions(d)[i]}], sp)
SubContext(c, names, sp) ==
   IF ~ (Rng(names) \subseteq Atts(c)) THEN No(c)
   ELSE Yes(Build(c.o, names, [i \in DOMAIN c.o |-> {j \in DOMAIN names : names[j] \in c.r[i]}], sp))
FilterObjects(c, B, mode) ==
   IF ~ (B \subseteq Atts(c)) THEN No(c)
   ELSE LET K == {i \in DOMAIN c.o : IF mode = "and" THEN B \subseteq c.r[i] ELSE B \cap c.r[i] # {}}
        IN Yes([c EXCEPT !.o = Without(@, DOMAIN c.o \ K), !.r = Without(@, DOMAIN c.o \ K)])
Product(c, d) ==
   IF c.a # d.o THEN No(c)
   ELSE Yes([o |-> c.o, a |-> d.a,
             r |-> [i \in DOMAIN c.o |-> UNION {d.r[j] : j \in {k \in DOMAIN d.o : d.o[k] \in c.r[i]}}]])
\* a context of the wanted size with any crosses: none at density 0 (e.d), all at density 1
RandomNames(letter, n) == [i \in 1..n |-> letter \o ToString(i - 1)]
RandomFits(e) == Len(e.tbl) = e.n /\ \A i \in DOMAIN e.tbl : Len(e.tbl[i]) = e.m
\* the table drawn, where the density leaves a choice
RandomTable(e) == [i \in 1..e.n |-> [j \in 1..e.m |-> IF e.d < 2 \/ ~ RandomFits(e) THEN e.d = 1 ELSE e.tbl[i][j]]]
RandomContext(e, sp) == New(RandomNames("g", e.n), RandomNames("m", e.m), RandomTable(e), sp)
Construct(live, e, sp) ==
   CASE e.op = "transpose" -> Yes(Transpose(live[e.from]))
     [] e.op = "complementary" -> Yes(Complementary(live[e.from], sp))
     [] e.op = "compound" -> Yes(Compound(live[e.from], sp))
     [] e.op = "extract_subcontext" -> SubContext(live[e.from], e.list, sp)
     [] e.op = "filter_by_attributes" -> FilterObjects(live[e.from], Rng(e.list), e.mode)
     [] e.op = "product" -> Product(live[e.from], live[e.with])
     [] e.op = "random" -> RandomContext(e, sp)
     [] e.op = "equal" -> [ok |-> TRUE, c |-> live[e.k]]
\* equal exactly if the names and the incidences agree, in whatever order
EqualityBad(live, e) ==
   LET same == IF SameRelation(live[e.k], live[e.with]) THEN "yes" ELSE "no"
   IN UNION {IF e.groups[i].v = same THEN {} ELSE {"equality by " \o e.groups[i].names[n] : n \in DOMAIN e.groups[i].names} :
             i \in DOMAIN e.groups}
=============================================================================
