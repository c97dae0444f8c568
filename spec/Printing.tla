------------------------------ MODULE Printing ------------------------------
(* The printed forms of the library's objects, as functions of their         *)
(* content.  Sh(x): how a name or value is written; Qu(x): how it is written *)
(* in a list; Ord: all names in ascending order.                             *)
EXTENDS ManyValued
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Map1(s, f) == [i \in DOMAIN s |-> f[s[i]]]
Ascending(S, ord) == SelectSeq(ord, LAMBDA x : x \in S)

(* a context: the attributes, then a line of crosses and dots per object *)
CtxText(c, sh) ==
   Join(Map1(c.a, sh), ", ") \o "\n"
   \o Cat([i \in DOMAIN c.o |-> sh[c.o[i]] \o "\t" \o Cat([j \in DOMAIN c.a |-> IF c.a[j] \in c.r[i] THEN "X" ELSE "."]) \o "\n"])
(* a many-valued context: the values instead of crosses *)
MvText(m, sh) ==
   Join(Map1(m.a, sh), ", ") \o "\n"
   \o Cat([i \in DOMAIN m.o |-> sh[m.o[i]] \o "\t" \o Join(Map1(m.v[i], sh), ", ") \o "\n"])
(* a partial context: crosses, question marks, dots *)
PartialText(p, sh) ==
   Join(Map1(p.a, sh), ", ") \o "\n" \o Join(Map1(p.o, sh), ", ") \o "\n"
   \o Cat([i \in DOMAIN p.o |-> "\n" \o Cat([j \in DOMAIN p.a |-> IF p.a[j] \in p.x[i] THEN "X" ELSE IF p.a[j] \in p.q[i] THEN "?" ELSE "."])])
(* an implication: what the conclusion adds to the premise *)
ImpText(p, c, neg, sh, ord) ==
   LET side(S) == Join(Map1(Ascending(S, ord), sh), ", ")
   IN side(p) \o " => " \o (IF neg THEN "not (" \o side(c \ p) \o ")" ELSE side(c \ p))
(* a concept: all objects (attributes) are written G (M) when the other side is empty *)
Listed(S, qu, ord) == "[" \o Join(Map1(Ascending(S, ord), qu), ", ") \o "]"
ConceptText(e, i, meta, qu, ord) ==
   "(" \o (IF i = {} THEN "G" ELSE Listed(e, qu, ord)) \o ", " \o (IF e = {} THEN "M" ELSE Listed(i, qu, ord)) \o ")"
   \o (IF meta = <<>> THEN "" ELSE " meta: {" \o Join([k \in DOMAIN meta |-> qu[meta[k][1]] \o ": " \o qu[meta[k][2]]], ", ") \o "}")
(* a concept system: one concept per line *)
SystemText(cs, qu, ord) == Join([k \in DOMAIN cs |-> ConceptText(cs[k].e, cs[k].i, cs[k].meta, qu, ord)], "\n")
(* an exploration: the context, and the implications left and confirmed *)
Section(head, bar, imps, sh, ord) == head \o "\n" \o bar \o "\n" \o Cat([k \in DOMAIN imps |-> ImpText(imps[k].p, imps[k].c, FALSE, sh, ord) \o "\n"])
ExplorationText(x, sh, ord) ==
   "Context:\n========\n" \o CtxText(x.c, sh) \o "\n"
   \o Section("Attribute implications:", "=======================", x.ai, sh, ord)
   \o Section("Confirmed attribute implications:", "=================================", x.ca, sh, ord)
   \o Section("Object implications:", "====================", x.oi, sh, ord)
   \o Section("Confirmed object implications:", "==============================", x.co, sh, ord)
=============================================================================
