----------------------------- MODULE MC_Partial -----------------------------
(* Histories of partial contexts and of explorations over them; completion    *)
(* against its definition.                                                   *)
EXTENDS Partial
CONSTANTS O, M, MaxO, MaxBg, Depth
VARIABLES d, hist
AttsM == SetToSeq(M)
Nested == {<<x, q>> \in (SUBSET M) \X (SUBSET M) : x \subseteq q}
AllImps == {<<P, C>> \in (SUBSET M) \X (SUBSET M) : C # {} /\ P \cap C = {}}
Open(s) == {<<B, XQ(s.p, B) \ B>> : B \in {Y \in SUBSET M : IsClosed(Y, Rng(s.bg)) /\ XQ(s.p, Y) # Y}}
Ops == {[op |-> "db_add", names |-> <<n>>, xs |-> <<r[1]>>, qs |-> <<r[2]>>] : n \in O, r \in Nested}
   \cup {[op |-> "db_add", names |-> <<n>>, xs |-> <<r[1]>>, qs |-> <<r[2]>>] : n \in O, r \in {<<M, {}>>}}
   \cup {[op |-> "db_confirm", imps |-> <<i>>] : i \in {j \in AllImps : ~ Refuted(d.p, j)}}
   \cup {[op |-> "db_confirm_complete", imps |-> <<i>>] : i \in Open(d)}
   \cup {[op |-> "db_unconfirm", imps |-> <<i>>] : i \in Rng(d.bg) \cup {<<{}, {"none"}>>}}
   \cup {[op |-> "db_reject", imps |-> <<i>>, names |-> <<n>>, xs |-> <<r[1]>>, qs |-> <<r[2]>>] : i \in Open(d), n \in O, r \in Nested}
   \cup {[op |-> "db_complete"], [op |-> "db_touch"]}
After(e) == LET r == DbDo(d, e) IN IF r.ok THEN [p |-> r.p, bg |-> r.bg] ELSE d
Start == [p |-> [o |-> <<>>, a |-> AttsM, x |-> <<>>, q |-> <<>>], bg |-> <<>>]
Init == d = Start /\ hist = <<[op |-> "start", a |-> AttsM]>>
Next == \E e \in Ops : d' = After(e) /\ UNCHANGED hist
Small == Len(d.p.o) <= MaxO /\ Len(d.bg) <= MaxBg
L == Rng(d.bg)
Invariant ==
   /\ PartialWF(d.p)
   /\ LET r == CompletePartial(d.p, L) IN
        /\ r.ok <=> \A i \in DOMAIN d.p.o : Readings(d.p.x[i], d.p.q[i], L, M) # {}
        /\ r.ok => /\ PartialWF(r.p)
                   /\ CompletePartial(r.p, L) = r
                   /\ \A i \in DOMAIN d.p.o : LET R == Readings(d.p.x[i], d.p.q[i], L, M) IN
                        \* nothing is lost, and nothing certain or impossible is missed
                        /\ Readings(r.p.x[i], r.p.q[i], L, M) = R
                        /\ r.p.x[i] = {y \in M : \A S \in R : y \in S}
                        /\ r.p.q[i] = {y \in M : \E S \in R : y \in S}
   \* the largest conclusion no object refutes
   /\ \A B \in SUBSET M : LET i == <<B, XQ(d.p, B)>> IN
        ~ Refuted(d.p, i) /\ \A y \in M \ XQ(d.p, B) : Refuted(d.p, <<B, {y}>>)
   \* nothing open means everything is known: unrefuted is entailed
   /\ Open(d) = {} => \A i \in AllImps : Refuted(d.p, i) \/ Entails(L, i)
Pick(S) == LET k == RandomElement({e.op : e \in S}) IN RandomElement({e \in S : e.op = k})
Random == Len(hist) < Depth /\ Len(d.p.o) <= MaxO
          /\ \E e \in {Pick(Ops)} : d' = After(e) /\ hist' = Append(hist, e)
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson(hist))
=============================================================================
