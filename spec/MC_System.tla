----------------------------- MODULE MC_System ------------------------------
(* All histories of a few systems over a small pool of pairs, which need    *)
(* not be concepts of a context: equal intents with different extents too.  *)
EXTENDS ConceptSystems, Json
CONSTANTS MaxLen, Depth, NP
VARIABLES st, hist
P == << <<{1, 2, 3}, {}>>, <<{1, 2}, {"a"}>>, <<{2, 3}, {"b"}>>, <<{2}, {"a", "b"}>>, <<{1}, {"a"}>>, <<{}, {"a", "b", "c"}>> >>
Lists == {"l"}
Sys == {"s", "t"}
Ops == {[op |-> "list", l |-> l, v |-> v] : l \in Lists, v \in {w \in {<<>>, <<1, 2>>, <<4, 2, 6>>, <<2, 5, 1>>, <<3, 3>>} : \A i \in DOMAIN w : w[i] <= NP}}
   \cup {[op |-> "system", s |-> s, l |-> l] : s \in Sys, l \in DOMAIN st.src \cup {""}}
   \cup {[op |-> "append", s |-> s, c |-> c] : s \in DOMAIN st.sys, c \in 1..NP}
   \cup {[op |-> "append_other", s |-> s] : s \in DOMAIN st.sys}
   \cup {[op |-> "remove", s |-> s, c |-> c] : s \in DOMAIN st.sys, c \in 1..NP}
   \cup {[op |-> "list_append", l |-> l, c |-> c] : l \in DOMAIN st.src, c \in {1, 4}}
   \cup {[op |-> "list_clear", l |-> l] : l \in DOMAIN st.src}
   \cup {[op |-> "look", s |-> s] : s \in DOMAIN st.sys}
Init == st = Start /\ hist = <<>>
Next == \E e \in Ops : st' = Apply(st, e).st /\ UNCHANGED hist
Small == \A s \in DOMAIN st.sys : Len(st.sys[s]) <= MaxLen
SmallSrc == \A l \in DOMAIN st.src : Len(st.src[l]) <= MaxLen
\* the covers generate the order, top and bottom exist, and members of one
\* system are untouched by operations on others
RECURSIVE Up(_, _)
Up(S, X) == LET Y == X \cup UNION {Parents(P, S, x) : x \in X} IN IF Y = X THEN X ELSE Up(S, Y)
Order == \A s \in DOMAIN st.sys : LET S == Rng(st.sys[s]) IN
   /\ \A x \in S : Up(S, {x}) = {x} \cup {y \in S : Less(P, x, y)}
   /\ \A x, y \in S : y \in Parents(P, S, x) <=> x \in Children(P, S, y)
   /\ S # {} => Maximal(P, S) # {} /\ Minimal(P, S) # {}
   /\ \A x \in S : (x \in Maximal(P, S) <=> Above(P, st.sys[s], x) = <<>>) /\ (x \in Minimal(P, S) <=> Below(P, st.sys[s], x) = <<>>)
Isolated == \A e \in Ops : LET r == Apply(st, e) IN
   /\ ~ r.ok => r.st = st
   /\ \A s \in DOMAIN st.sys : ("s" \notin DOMAIN e \/ e.s # s) => r.st.sys[s] = st.sys[s]
   /\ \A l \in DOMAIN st.src : ("l" \notin DOMAIN e \/ e.l # l \/ e.op = "system") => r.st.src[l] = st.src[l]
\* generation
Pick(S) == LET k == RandomElement({e.op : e \in S}) IN RandomElement({e \in S : e.op = k})
Random == Len(hist) < Depth /\ \E e \in {Pick(Ops)} : st' = Apply(st, e).st /\ hist' = Append(hist, e)
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson([pool |-> P, ops |-> hist]))
=============================================================================
