------------------------------- MODULE MC_Xml -------------------------------
(* A system is written, in some order, and read event by event, the texts   *)
(* cut into pieces; then the next one, with what the last left behind.      *)
EXTENDS XmlStore
CONSTANTS Len1, Rounds, Cut
\* names are sequences of characters
ONames == {<<"x">>, <<"x", " ", "y">>, <<"x", " ", " ", "y">>}
ANames == {<<"x">>, <<"m", " ", "n">>}
Members == {[e |-> E, i |-> I, m |-> M] : E \in SUBSET ONames, I \in SUBSET ANames, M \in {{}, {<<"k", 1>>}}}
Systems == UNION {[1..n -> Members] : n \in 0..Len1}
VARIABLES sys, doc, rest, st, round, fresh
vars == <<sys, doc, rest, st, round, fresh>>
Idle == [buf |-> <<>>, id |-> "", o |-> {}, a |-> {}, e |-> {}, i |-> {}, m |-> {}, out |-> <<>>]
NoDoc == [objs |-> <<>>, atts |-> <<>>, cs |-> <<>>]
Init == sys = <<>> /\ doc = NoDoc /\ rest = <<>> /\ st = Idle /\ round = 0 /\ fresh = FALSE
WriteAndOpen == /\ rest = <<>> /\ round < Rounds
                /\ \E S \in Systems : \E d \in Documents(S) : sys' = S /\ doc' = d /\ rest' = Stream(d) /\ st' = Fresh(st)
                /\ round' = round + 1 /\ fresh' = TRUE
\* reading stops anywhere (a broken file) and leaves its state behind
GiveUp == rest # <<>> /\ round < Rounds /\ rest' = <<>> /\ fresh' = FALSE /\ UNCHANGED <<sys, doc, st, round>>
Event == /\ rest # <<>>
         /\ LET v == Head(rest) IN
              IF v[1] = "text" /\ Len(v[2]) > 1 /\ Cut
              THEN \E k \in 1..Len(v[2]) :
                     /\ st' = Read1(st, <<"text", SubSeq(v[2], 1, k)>>)
                     /\ rest' = (IF k = Len(v[2]) THEN Tail(rest) ELSE <<<<"text", SubSeq(v[2], k + 1, Len(v[2]))>>>> \o Tail(rest))
              ELSE st' = Read1(st, v) /\ rest' = Tail(rest)
         /\ UNCHANGED <<sys, doc, round, fresh>>
Next == WriteAndOpen \/ GiveUp \/ Event
Same(x) == x
Written == DocWF(doc) /\ Decode(doc, Same) = sys
RoundTrip == (rest = <<>> /\ fresh) => st.out = sys
=============================================================================
