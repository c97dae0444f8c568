--------------------------- MODULE ContextMachine ---------------------------
(* State machine of one editable context: the edits possible in a state, for *)
(* model checking (MC_Context) and for generating behaviours that are        *)
(* replayed into the implementation (Gen_Context).                           *)
EXTENDS ContextEdits, Json
CONSTANTS ONames, ANames,     \* names used in edits (strings)
          MaxO, MaxA, Depth

Plain == <<>>                 \* all names are strings spelled as they are
RECURSIVE BoolSeqs(_)
BoolSeqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, b) : s \in BoolSeqs(n - 1), b \in BOOLEAN}
AsList(S) == SetToSeq(S)
UO == CHOOSE x \in ONames : TRUE
\* every edit of a context, with arguments that fit and some that do not
Edits(c) ==
   LET O == Objs(c)  A == Atts(c)
       on == ONames \cup O
       an == ANames \cup A
   IN  {[op |-> "add_object", row |-> r, name |-> x] : r \in BoolSeqs(Len(c.a)), x \in ONames}
  \cup {[op |-> "add_object", row |-> r, name |-> x] : r \in {[j \in 1..(Len(c.a) + 1) |-> TRUE]}, x \in {UO}}
  \cup {[op |-> "add_attribute", row |-> r, name |-> x] : r \in BoolSeqs(Len(c.o)), x \in ANames}
  \cup {[op |-> "add_attribute", row |-> r, name |-> x] : r \in {[j \in 1..(Len(c.o) + 1) |-> FALSE]},
                                                          x \in {CHOOSE y \in ANames : TRUE}}
  \cup {[op |-> "add_object_with_intent", set |-> AsList(s), name |-> x] :
          s \in SUBSET A \cup {A \cup {"?none"}}, x \in ONames}
  \cup {[op |-> "add_attribute_with_extent", set |-> AsList(s), name |-> x] :
          s \in SUBSET O \cup {O \cup {"?none"}}, x \in ANames}
  \cup {[op |-> "set_object_intent", set |-> AsList(s), name |-> x] : s \in SUBSET A, x \in O}
  \cup {[op |-> "set_object_intent", set |-> AsList(s), name |-> "?none"] : s \in {A}}
  \cup {[op |-> "set_object_intent", set |-> AsList(A \cup {"?none"}), name |-> x] : x \in O}
  \cup {[op |-> "set_attribute_extent", set |-> AsList(s), name |-> x] : s \in SUBSET O, x \in A}
  \cup {[op |-> "set_attribute_extent", set |-> AsList(s), name |-> "?none"] : s \in {O}}
  \cup {[op |-> "set_attribute_extent", set |-> AsList(O \cup {"?none"}), name |-> x] : x \in A}
  \cup {[op |-> "delete_object", name |-> x] : x \in O \cup {"?none"}}
  \cup {[op |-> "delete_attribute", name |-> x] : x \in A \cup {"?none"}}
  \cup {[op |-> "delete_attributes", set |-> AsList(s)] : s \in SUBSET A \cup {A \cup {"?none"}}}
  \cup {[op |-> "rename_object", old |-> x, name |-> y] : x \in O \cup {"?none"}, y \in on}
  \cup {[op |-> "rename_attribute", old |-> x, name |-> y] : x \in A \cup {"?none"}, y \in an}
  \cup {[op |-> "remove_empty_objects"]}

\* starting contexts: all tables over the first names, also clashing names
Starts == {New(o, a, [i \in 1..Len(o) |-> [j \in 1..Len(a) |-> <<i, j>> \in P]], Plain).c :
             o \in {<<>>, <<"g">>, <<"g", "h">>, <<"g", "g">>}, a \in {<<>>, <<"a">>, <<"a", "b">>, <<"b", "b">>},
             P \in {{}, {<<1, 1>>}, {<<1, 2>>, <<2, 1>>}, {<<1, 1>>, <<1, 2>>, <<2, 2>>}}}
=============================================================================
