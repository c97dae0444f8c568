---------------------------- MODULE MC_Patterns -----------------------------
(* All histories of a small pattern exploration.                            *)
EXTENDS Patterns, Json
CONSTANTS M, MaxP, MaxN, MaxC, Depth
VARIABLES s, hist
vars == <<s, hist>>
A == SetToSeq(M)
Empty == [o |-> <<>>, a |-> A, r |-> <<>>]
Init == s = [pos |-> Empty, neg |-> Empty, conf |-> <<>>] /\ hist = <<>>
Ops == [op : {"confirm"}, p : SUBSET M]
       \cup [op : {"positive"}, name : {"p" \o ToString(Len(s.pos.o))}, b : SUBSET M]
       \cup [op : {"negative"}, name : {"n" \o ToString(Len(s.neg.o))}, b : SUBSET M, p : SUBSET M]
Next == \E e \in Ops : s' = Do(s, e).s /\ hist' = Append(hist, e)
Small == Len(s.pos.o) <= MaxP /\ Len(s.neg.o) <= MaxN /\ Len(s.conf) <= MaxC
View == s
\* confirmed patterns occur positively and never negatively, always
Sound == \A k \in DOMAIN s.conf : IsPattern(s, s.conf[k])
\* what is still to be explained: every positive example not explained has no confirmed
\* pattern; one that no negative example contains is still a pattern of its own
Progress == \A i \in DOMAIN s.pos.o : i \in Unexplained(s) => \A k \in DOMAIN s.conf : ~ (s.conf[k] \subseteq s.pos.r[i])
CanExplain == \A i \in Unexplained(s) : Has(s.neg, s.pos.r[i]) = {} => Confirm(s, s.pos.r[i]).ok
\* the generated patterns separate exactly what can be separated by attributes of T:
\* each positive object whose T-part is in no negative object has a generated pattern
Generated == \A T \in KeptAtts(s.pos) :
               /\ \A P \in GeneratedPatterns(s, T) : Has(s.pos, P) # {} => IsPattern(s, P)
               /\ \A i \in DOMAIN s.pos.o : Has(s.neg, s.pos.r[i] \cap T) = {} => (s.pos.r[i] \cap T) \in GeneratedPatterns(s, T)
\* T keeps all the distinctions of the positive context
Faithful == \A T \in KeptAtts(s.pos) : \A B \in Intents(s.pos) : ClA(s.pos, B \cap T) = B
SoundStep == [][\A k \in DOMAIN s.conf : k \in DOMAIN s'.conf /\ s'.conf[k] = s.conf[k]]_s
Invariant == Sound /\ Progress /\ CanExplain /\ Generated /\ Faithful
Pick(S) == CHOOSE x \in {RandomElement(S)} : TRUE
Random == Len(hist) < Depth /\ \E kind \in {Pick({"confirm", "positive", "negative"})} :
             \E e \in {Pick({x \in Ops : x.op = kind})} : s' = Do(s, e).s /\ hist' = Append(hist, e)
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson(hist))
=============================================================================
