--------------------------- MODULE ContextQueries ---------------------------
(* What the analyses of a context have to answer.  QueryBad(c, e) is the set *)
(* of violated clauses for the recorded query e on the abstract context c.   *)
(* A query records groups of answers: several entry points (names) that gave *)
(* the same answer v.                                                        *)
EXTENDS ContextEdits, TraceData

IsSetOf(v, S) == Rng(v) = S /\ Len(v) = Cardinality(S)
PairsOfSeqs(v) == {<<Rng(v[i][1]), Rng(v[i][2])>> : i \in DOMAIN v}
GroupsBad(e, good(_), text) ==
   UNION {IF good(e.groups[i]) THEN {} ELSE {text \o " " \o e.groups[i].names[n] : n \in DOMAIN e.groups[i].names} :
          i \in DOMAIN e.groups}

(******************************* derivation *********************************)
\* counts are lists of [name, number]; a name that is missing counts as 0
CountOf(v, x) == LET K == {i \in DOMAIN v : v[i][1] = x} IN IF K = {} THEN 0 ELSE v[CHOOSE i \in K : TRUE][2]
CountsOK(v, S, f(_)) == /\ \A i \in DOMAIN v : v[i][1] \in S
                        /\ \A x \in S : CountOf(v, x) = f(x)
DeriveBad(c, e) ==
   LET B == Rng(e.set)
       good(g) == CASE g.what = "extent" -> IsSetOf(g.v, Ext(c, B))
                    [] g.what = "intent" -> IsSetOf(g.v, Itn(c, B))
                    [] g.what = "attribute closure" -> IsSetOf(g.v, ClA(c, B))
                    [] g.what = "restricted closure" -> IsSetOf(g.v, ClA(c, B) \cap {c.a[j] : j \in 1..e.first})
                    [] g.what = "object closure" -> IsSetOf(g.v, ClO(c, B))
                    \* per object: how many of the attributes B it has
                    [] g.what = "object counts" ->
                         CountsOK(g.v, Objs(c), LAMBDA o : Cardinality(B \cap RowOf(c, o)))
                    \* per attribute: how many of the objects B have it
                    [] g.what = "attribute counts" ->
                         CountsOK(g.v, Atts(c), LAMBDA a : Cardinality(B \cap Ext(c, {a})))
                    \* per attribute: how many objects of the extent of B have it
                    [] g.what = "closure counts" ->
                         CountsOK(g.v, Atts(c), LAMBDA a : Cardinality(Ext(c, B \cup {a})))
                    [] g.what = "extent size" -> g.v = <<Cardinality(Ext(c, B))>>
                    [] g.what = "refused" -> e.unknown
                    [] OTHER -> FALSE
   IN GroupsBad(e, good, "derivation by")

(******************************* concepts ***********************************)
\* a list of concepts is exactly the set of all concepts, each once
AllConcepts(c, v) == PairsOfSeqs(v) = Concepts(c) /\ Len(v) = Cardinality(Concepts(c))
                     /\ \A i \in DOMAIN v : Len(v[i][1]) = Cardinality(Rng(v[i][1]))
                                            /\ Len(v[i][2]) = Cardinality(Rng(v[i][2]))
ConceptsBad(c, e) == GroupsBad(e, LAMBDA g : AllConcepts(c, g.v), "concepts by")
\* an iterator over concepts: intents at the moment they were handed out, and
\* the same objects after the end
IterBad(c, e) ==
   LET S == [i \in DOMAIN e.snap |-> Rng(e.snap[i])]
   IN Unless(\A i \in DOMAIN S : S[i] \in Intents(c), "iterator hands out intents only")
      \cup Unless(Distinct(S), "iterator hands out each intent once")
      \cup Unless(\A i \in DOMAIN S : Rng(e.after[i][2]) = S[i], "intents handed out are final")
      \cup Unless(e.done => AllConcepts(c, e.after), "exhausted iterator has handed out all concepts")
      \cup Unless(e.raised = "", "iterator raises " \o e.raised)

(******************************* lattice ************************************)
\* positions 1..n in the list e.cs; order queries are lists of positions, 0 for
\* something that is no member
LatticeBad(c, e) ==
   LET P == [i \in DOMAIN e.cs |-> <<Rng(e.cs[i][1]), Rng(e.cs[i][2])>>]
       S == Rng(P)
       D == DOMAIN P
       At(v) == {P[i] : i \in Rng(v) \cap D}
       Exact(v, T) == 0 \notin Rng(v) /\ At(v) = T /\ Len(v) = Cardinality(T)
   IN IF ~ AllConcepts(c, e.cs) THEN {"lattice has exactly the concepts"}
      ELSE UNION {Unless(e.q[k].i \in D /\
             (CASE e.q[k].what = "parents" -> Exact(e.q[k].v, UpperCovers(S, P[e.q[k].i]))
                [] e.q[k].what = "children" -> Exact(e.q[k].v, LowerCovers(S, P[e.q[k].i]))
                [] e.q[k].what = "filter" -> Exact(e.q[k].v, {p \in S : StrictlyBelow(P[e.q[k].i], p)})
                [] e.q[k].what = "ideal" -> Exact(e.q[k].v, {p \in S : StrictlyBelow(p, P[e.q[k].i])})
                [] e.q[k].what = "index" -> e.q[k].v = <<e.q[k].i>>
                [] e.q[k].what = "getitem" -> e.q[k].v = <<e.q[k].i>>
                [] e.q[k].what = "contains" -> e.q[k].v = <<1>>),
                  e.q[k].what \o " of a concept" \o e.q[k].how) : k \in DOMAIN e.q}
           \cup Unless(e.top \in D /\ \A p \in S : p[1] \subseteq Rng(e.cs[e.top][1]), "top concept")
           \cup Unless(e.bottom \in D /\ \A p \in S : p[2] \subseteq Rng(e.cs[e.bottom][2]), "bottom concept")
           \cup Unless(e.len = Len(e.cs), "length of the lattice")
           \cup Unless(~ e.foreign, "a pair that is no concept is not a member")

(******************************* bases **************************************)
Imp(v) == <<Rng(v[1]), Rng(v[2])>>
Imps(v) == {Imp(v[i]) : i \in DOMAIN v}
\* conclusions are reported without the premise
Reduced(L) == {<<i[1], i[2] \ i[1]>> : i \in L}
NoRepeats(v) == Cardinality({Rng(v[i][1]) : i \in DOMAIN v}) = Len(v)
Cond(c, B) == CASE c[1] = "all" -> TRUE
                [] c[1] = "max" -> Cardinality(B) <= c[2]
                [] c[1] = "min" -> Cardinality(B) >= c[2]
                [] c[1] = "has" -> c[2] \in B
                [] c[1] = "hasnot" -> c[2] \notin B
                [] c[1] = "even" -> Cardinality(B) % 2 = 0
                [] c[1] = "none" -> FALSE
\* the canonical basis relative to bg: by enumeration of all attribute sets on
\* small contexts, by the recogniser (equivalent, see MC_Theory) on larger ones
BasisOK(c, bg, v) ==
   /\ NoRepeats(v)
   /\ IF Len(c.a) <= 6 THEN Imps(v) = Reduced(RelativeBasis(c, bg))
      ELSE IsRelativeBasis(c, bg, Imps(v))
CondBasisOK(c, bg, cond, v) ==
   /\ NoRepeats(v)
   /\ \A i \in DOMAIN v : LET j == Imp(v[i]) IN
        Holds(c, j) /\ j[1] \subseteq Atts(c) /\ Cond(cond, j[1]) /\ ~ Entails(bg, j)
   \* a condition true of all premises changes nothing
   /\ (cond[1] = "all") => BasisOK(c, bg, v)
BasisBad(c, e) ==
   LET good(g) == CASE g.what = "basis" -> BasisOK(c, Imps(g.bg), g.v)
                    [] g.what = "conditional" -> CondBasisOK(c, Imps(g.bg), g.cond, g.v)
                    [] g.what = "object basis" -> BasisOK(Transpose(c), Imps(g.bg), g.v)
                    [] g.what = "cover" -> ExactFor(c, Imps(g.v))
                    \* handed out so far by an iterator that was not exhausted
                    [] g.what = "partial" -> /\ NoRepeats(g.v)
                                             /\ IF Len(c.a) <= 6
                                                THEN Imps(g.v) \subseteq Reduced(RelativeBasis(c, Imps(g.bg)))
                                                ELSE SoundFor(c, Imps(g.v))
                    [] OTHER -> FALSE
   IN GroupsBad(e, good, "implications by")

QueryOps == {"derive", "concepts", "iter", "lattice", "basis", "fails"}
QueryBad(c, e) ==
   CASE e.op = "derive" -> DeriveBad(c, e)
     [] e.op = "concepts" -> ConceptsBad(c, e)
     [] e.op = "iter" -> IterBad(c, e)
     [] e.op = "lattice" -> LatticeBad(c, e)
     [] e.op = "basis" -> BasisBad(c, e)
     \* an analysis made to fail by its caller: it must let the failure through
     [] e.op = "fails" -> Unless(e.out = "exc", "failing analysis passes the failure on")
=============================================================================
