---------------------------- MODULE MC_Sessions ----------------------------
(* Histories of one session.  added: what was added by the session, each     *)
(* with the number of implications accepted before.                          *)
EXTENDS Sessions
CONSTANTS O, MaxO, MaxBg, Depth
VARIABLES x, added, hist
Starts == {[o |-> o, a |-> a, r |-> r] : o \in {<<>>, <<"g">>, <<"g", "h">>}, a \in {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>},
             r \in {<<>>, <<{}>>, <<{"a"}>>, <<{"a", "b"}, {"b"}>>, <<{"a", "c"}, {}>>}}
Good == {c \in Starts : WellFormed(c) /\ Len(c.o) <= MaxO}
Candidates(s) == Reduced(RelativeBasis(s.c, Rng(s.bg)))
Ops == {[op |-> "accept", imp |-> i] : i \in Candidates(x)}
   \cup {[op |-> "reject", imp |-> i, name |-> n, s |-> s] : i \in Candidates(x), n \in O \ Objs(x.c), s \in SUBSET Atts(x.c)}
   \cup {[op |-> "add", name |-> n, s |-> s] : n \in O \ Objs(x.c), s \in SUBSET Atts(x.c)}
   \cup {[op |-> "look"], [op |-> "spoil"]}
With(y, r) == [y EXCEPT !.c = r.c, !.bg = r.bg]
Remember(e, r) == IF r.ok /\ e.op \in {"add", "reject"} THEN added \cup {<<e.s, Len(x.bg)>>} ELSE added
Init == x \in {[c |-> c, bg |-> <<>>] : c \in Good} /\ added = {} /\ hist = <<[op |-> "start", c |-> x.c]>>
Next == \E e \in Ops : LET r == DoSession(x, e) IN x' = With(x, r) /\ added' = Remember(e, r) /\ UNCHANGED hist
Small == Len(x.c.o) <= MaxO /\ Len(x.bg) <= MaxBg
Invariant == /\ WellFormed(x.c) /\ BackgroundOK(x)
             /\ \A p \in added : \A k \in 1..p[2] : Respects(p[1], x.bg[k])
             /\ \A i \in Candidates(x) : Holds(x.c, i) /\ ~ Entails(Rng(x.bg), i)
             /\ ExactFor(x.c, Rng(x.bg) \cup Candidates(x))
\* an accepted candidate is settled; an honoured rejection removes it
Settles == \A i \in Candidates(x) :
             /\ i \notin Candidates(With(x, DoSession(x, [op |-> "accept", imp |-> i])))
             /\ \A s \in SUBSET Atts(x.c) : LET r == DoSession(x, [op |-> "reject", imp |-> i, name |-> "new", s |-> s])
                                          IN r.ok => ~ Holds(r.c, i)
\* no candidate at all means everything is known
NothingLeft == Candidates(x) = {} => Equivalent(Rng(x.bg), StemBase(x.c))
Pick(S) == LET k == RandomElement({e.op : e \in S}) IN RandomElement({e \in S : e.op = k})
Random == Len(hist) < Depth /\ \E e \in {Pick(Ops)} : LET r == DoSession(x, e) IN
             x' = With(x, r) /\ added' = Remember(e, r) /\ hist' = Append(hist, e)
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson(hist))
=============================================================================
