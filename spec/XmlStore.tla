------------------------------ MODULE XmlStore ------------------------------
(***************************************************************************)
(* Concept systems in XML files.  A system is a sequence of concepts       *)
(* [e, i, m]: extent and intent (sets of names) and the set of annotations *)
(* <<name, value>>.  A document declares objects and attributes with ids   *)
(* and lists concepts by references:                                       *)
(*   [objs, atts : Seq([id, name]), cs : Seq([e, i : Seq(ref), m])]        *)
(* The reader is a machine over the stream of parser events; text may      *)
(* arrive in pieces, cut anywhere.                                         *)
(***************************************************************************)
EXTENDS FCA

(******************************* documents *********************************)
Resolve(table, ref) == (CHOOSE d \in Rng(table) : d.id = ref).name
DocWF(d) == /\ \A tb \in {d.objs, d.atts} : \A i, j \in DOMAIN tb : tb[i].id = tb[j].id => i = j
            /\ \A k \in DOMAIN d.cs : /\ \A i \in DOMAIN d.cs[k].e : \E x \in Rng(d.objs) : x.id = d.cs[k].e[i]
                                      /\ \A i \in DOMAIN d.cs[k].i : \E x \in Rng(d.atts) : x.id = d.cs[k].i[i]
Decode(d, Key(_)) == [k \in DOMAIN d.cs |-> [e |-> {Resolve(d.objs, r) : r \in Rng(d.cs[k].e)},
                                             i |-> {Resolve(d.atts, r) : r \in Rng(d.cs[k].i)},
                                             m |-> {<<Key(p[1]), p[2]>> : p \in d.cs[k].m}]]

(***************************** the reading machine *************************)
\* events: <<"start", kind, id>>, <<"ref", kind, id>>, <<"open">>, <<"meta", m>>,
\* <<"text", seq of chars>>, <<"end", kind>>, <<"close">>
Blank == " "
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ Head(s) = Blank THEN Strip(Tail(s))
            ELSE IF s # <<>> /\ s[Len(s)] = Blank THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* st: [buf, id, o, a (sets of declarations), e, i, m, out]; the leftovers of an
\* earlier file are whatever they are, only the tables and the result are new
Fresh(old) == [old EXCEPT !.buf = <<>>, !.id = "", !.o = {}, !.a = {}, !.out = <<>>]
Look(tb, id) == (CHOOSE d \in tb : d.id = id).name
Read1(st, v) ==
   CASE v[1] = "start" -> [st EXCEPT !.id = v[3], !.buf = <<>>]
     [] v[1] = "text" -> [st EXCEPT !.buf = st.buf \o v[2]]
     [] v[1] = "end" -> IF st.id = "" THEN st
                        ELSE LET d == [id |-> st.id, name |-> Strip(st.buf)]
                             IN IF v[2] = "object" THEN [st EXCEPT !.o = st.o \cup {d}, !.id = "", !.buf = <<>>]
                                ELSE [st EXCEPT !.a = st.a \cup {d}, !.id = "", !.buf = <<>>]
     [] v[1] = "open" -> [st EXCEPT !.e = {}, !.i = {}, !.m = {}]
     [] v[1] = "ref" -> IF v[2] = "object" THEN [st EXCEPT !.e = st.e \cup {Look(st.o, v[3])}]
                        ELSE [st EXCEPT !.i = st.i \cup {Look(st.a, v[3])}]
     [] v[1] = "meta" -> [st EXCEPT !.m = st.m \cup v[2]]
     [] v[1] = "close" -> [st EXCEPT !.out = Append(st.out, [e |-> st.e, i |-> st.i, m |-> st.m]), !.e = {}, !.i = {}, !.m = {}]

\* the stream of a document, with white space between the elements
Layout == <<"text", <<Blank>>>>
Declare(kind, d) == <<<<"start", kind, d.id>>, <<"text", d.name>>, <<"end", kind>>, Layout>>
Refs(kind, s) == FlattenSeq([k \in DOMAIN s |-> <<<<"ref", kind, s[k]>>, <<"end", kind>>>>])
Stream(d) == FlattenSeq([k \in DOMAIN d.objs |-> Declare("object", d.objs[k])])
             \o FlattenSeq([k \in DOMAIN d.atts |-> Declare("attribute", d.atts[k])])
             \o FlattenSeq([k \in DOMAIN d.cs |-> <<<<"open">>>> \o Refs("object", d.cs[k].e) \o Refs("attribute", d.cs[k].i)
                                                  \o <<<<"meta", d.cs[k].m>>, Layout, <<"close">>>>])
\* the documents a writer may make of a system: any order of the declarations
NamesIn(S, w) == UNION {IF w = "e" THEN c.e ELSE c.i : c \in Rng(S)}
Orders(X) == {s \in [1..Cardinality(X) -> X] : Rng(s) = X}
RefOf(table, x) == (CHOOSE d \in Rng(table) : d.name = x).id
AnyOrder(X) == CHOOSE s \in Orders(X) : TRUE
Documents(S) ==
   {[objs |-> [k \in DOMAIN so |-> [id |-> "o" \o ToString(k), name |-> so[k]]],
     atts |-> [k \in DOMAIN sa |-> [id |-> "a" \o ToString(k), name |-> sa[k]]],
     cs |-> [k \in DOMAIN S |-> [e |-> AnyOrder({"o" \o ToString(j) : j \in {h \in DOMAIN so : so[h] \in S[k].e}}),
                                 i |-> AnyOrder({"a" \o ToString(j) : j \in {h \in DOMAIN sa : sa[h] \in S[k].i}}),
                                 m |-> S[k].m]]] : so \in Orders(NamesIn(S, "e")), sa \in Orders(NamesIn(S, "i"))}
=============================================================================
