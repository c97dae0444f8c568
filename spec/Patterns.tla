------------------------------ MODULE Patterns ------------------------------
(***************************************************************************)
(* Exploration of patterns: combinations of attributes that occur among    *)
(* the positive examples and not among the negative ones.                  *)
(* State: [pos, neg : contexts, conf : sequence of confirmed patterns].    *)
(***************************************************************************)
EXTENDS ContextEdits

Spell == [x \in {} |-> x]
Has(c, P) == Ext(c, P)          \* names of the objects having P
NoP(s) == [ok |-> FALSE, s |-> s]
YesP(s) == [ok |-> TRUE, s |-> s]
StartPat(pos, neg) == IF Atts(pos) # Atts(neg) THEN [ok |-> FALSE] ELSE YesP([pos |-> pos, neg |-> neg, conf |-> <<>>])
IsPattern(s, P) == Has(s.pos, P) # {} /\ Has(s.neg, P) = {}
Confirm(s, P) == IF IsPattern(s, P) THEN YesP([s EXCEPT !.conf = Append(@, P)]) ELSE NoP(s)
Explained(s, B) == \E k \in DOMAIN s.conf : s.conf[k] \subseteq B
AddPositive(s, name, B) == YesP([s EXCEPT !.pos = AddObjectWithIntent(s.pos, B, name, Spell).c])
\* for = {} stands for no pattern given as well as for the empty one
AddNegative(s, name, B, for) == IF ~ (for \subseteq B) \/ Explained(s, B) THEN NoP(s)
                                ELSE YesP([s EXCEPT !.neg = AddObjectWithIntent(s.neg, B, name, Spell).c])
Unexplained(s) == {i \in DOMAIN s.pos.o : ~ Explained(s, s.pos.r[i])}
Covers(s, P) == Cardinality({i \in Unexplained(s) : P \subseteq s.pos.r[i]})

\* the patterns generated: the intents of the positive context, written with
\* the attributes of T, that no negative example has.  T holds one attribute
\* for each irreducible column.
Column(c, x) == Ext(c, {x})
Columns(c) == IrreducibleRows(Transpose(c))
RECURSIVE OneEach(_)
OneEach(cs) == IF cs = <<>> THEN {{}} ELSE {T \cup {x} : T \in OneEach(Tail(cs)), x \in Head(cs)}
KeptAtts(c) == LET classes == {{x \in Atts(c) : Column(c, x) = col} : col \in Columns(c)}
              IN OneEach(SetToSeq(TLCEval(classes)))
GeneratedPatterns(s, T) == {P \in {B \cap T : B \in Intents(s.pos)} : Has(s.neg, P) = {}}
\* the patterns a generator of one's own gives, or the generated ones
Offered(s, own, T) == IF own.yes THEN own.ps ELSE GeneratedPatterns(s, T)
Writings(s, own) == IF own.yes THEN {{}} ELSE KeptAtts(s.pos)
\* listed: sequence of <<pattern, number>>
ListedOK(s, own, listed) ==
   /\ \A k \in DOMAIN listed : listed[k][2] = Covers(s, listed[k][1])
   /\ \A j, k \in DOMAIN listed : j < k => listed[j][2] >= listed[k][2]
   /\ Distinct(listed)
   /\ \E T \in Writings(s, own) : {listed[k][1] : k \in DOMAIN listed} = {P \in Offered(s, own, T) : ~ Explained(s, P)}
PatternsOK(s, own, got) ==           \* sequence of <<pattern, examples>>
   /\ \A k \in DOMAIN got : got[k][2] = Has(s.pos, got[k][1])
   /\ Distinct(got)
   /\ \E T \in Writings(s, own) : {got[k][1] : k \in DOMAIN got} = Offered(s, own, T)

Do(s, e) == CASE e.op = "confirm" -> Confirm(s, e.p)
              [] e.op = "positive" -> AddPositive(s, e.name, e.b)
              [] e.op = "negative" -> AddNegative(s, e.name, e.b, e.p)
              [] OTHER -> YesP(s)
=============================================================================
