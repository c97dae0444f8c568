------------------------------- MODULE Storage ------------------------------
(***************************************************************************)
(* Text formats: what each writer puts into a file, line by line, and what *)
(* each reader makes of a file.  A file is a sequence of lines (strings);  *)
(* names and values are texts, tagged "s:" (string) or "i:" (integer).     *)
(* The store maps paths to files.                                          *)
(***************************************************************************)
EXTENDS FCA

(********************************* texts ***********************************)
Chr(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Chr(s, i)]
RECURSIVE JoinFrom(_, _, _)
JoinFrom(parts, sep, i) == IF i = Len(parts) THEN parts[i] ELSE parts[i] \o sep \o JoinFrom(parts, sep, i + 1)
Join(parts0, sep) == LET parts == TLCEval(parts0) IN IF parts = <<>> THEN "" ELSE JoinFrom(parts, sep, 1)
Cells(line, sep) ==
   LET cuts == TLCEval(SetToSortSeq({i \in 1..Len(line) : Chr(line, i) = sep}, <))
       ends == TLCEval(<<0>> \o cuts \o <<Len(line) + 1>>)
   IN [k \in 1..(Len(ends) - 1) |-> SubSeq(line, ends[k] + 1, ends[k + 1] - 1)]
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNat(s) == Len(s) > 0 /\ (\A i \in 1..Len(s) : Chr(s, i) \in Digits) /\ (s = "0" \/ Chr(s, 1) # "0")
IsInt(s) == IsNat(s) \/ (Len(s) > 1 /\ Chr(s, 1) = "-" /\ IsNat(SubSeq(s, 2, Len(s))) /\ s # "-0")
DigitValue == [d \in Digits |-> CHOOSE v \in 0..9 : ToString(v) = d]
RECURSIVE NatValue(_)
NatValue(s) == IF s = "" THEN 0 ELSE 10 * NatValue(SubSeq(s, 1, Len(s) - 1)) + DigitValue[Chr(s, Len(s))]
Text(name) == SubSeq(name, 3, Len(name))
AsStr(s) == "s:" \o s
Literal(s) == IF IsInt(s) THEN "i:" \o s ELSE AsStr(s)     \* how read_cxt takes a name
Map(s, F(_)) == TLCEval([i \in DOMAIN s |-> F(s[i])])

(******************************* the formats *******************************)
Cross(c, i) == Join([j \in DOMAIN c.a |-> IF c.a[j] \in c.r[i] THEN "X" ELSE "."], "")
CxtLines(c) == <<"B", "", ToString(Len(c.o)), ToString(Len(c.a)), "">>
               \o Map(c.o, Text) \o Map(c.a, Text) \o [i \in DOMAIN c.o |-> Cross(c, i)]
IsCxt(f) == Len(f) > 0 /\ f[1] = "B"
\* a file with that head which follows the format throughout
IsCount(s) == Len(s) < 5 /\ IsNat(s)
FollowsCxt(f) ==
   /\ Len(f) >= 5 /\ IsCount(f[3]) /\ IsCount(f[4])
   /\ LET n == NatValue(f[3])
          m == NatValue(f[4])
      IN Len(f) = 5 + n + m + n /\ \A i \in 1..n : Len(f[5 + n + m + i]) = m
ParseCxt(f, N(_)) ==
   LET n == TLCEval(NatValue(f[3]))
       m == TLCEval(NatValue(f[4]))
       atts == TLCEval([j \in 1..m |-> N(f[5 + n + j])])
   IN [o |-> [i \in 1..n |-> N(f[5 + i])], a |-> atts,
       r |-> [i \in 1..n |-> {atts[j] : j \in {k \in 1..m : Chr(f[5 + n + m + i], k) = "X"}}]]

\* a trailing separator of the header line of a tab-separated table is allowed
Header(line, m) == LET h == Cells(line, "\t")
                   IN Map(IF Len(h) = m + 1 /\ h[m + 1] = "" THEN SubSeq(h, 1, m) ELSE h, AsStr)
BinRow(atts, cells) == {atts[j] : j \in {k \in DOMAIN atts : cells[k] = "1"}}
ParseTxt(f) ==
   LET rows == TLCEval([i \in 1..(Len(f) - 2) |-> Cells(f[i + 2], "\t")])
       atts == TLCEval(Header(f[1], IF rows = <<>> THEN Len(Cells(f[1], "\t")) ELSE Len(rows[1])))
   IN [o |-> [i \in DOMAIN rows |-> "s:g" \o ToString(i)], a |-> atts, r |-> [i \in DOMAIN rows |-> BinRow(atts, rows[i])]]
ParseTxtNames(f) ==
   LET rows == TLCEval([i \in 1..(Len(f) - 2) |-> Cells(f[i + 2], "\t")])
       atts == TLCEval(Header(f[1], IF rows = <<>> THEN Len(Cells(f[1], "\t")) ELSE Len(rows[1]) - 1))
   IN [o |-> [i \in DOMAIN rows |-> AsStr(rows[i][1])], a |-> atts,
       r |-> [i \in DOMAIN rows |-> BinRow(atts, Tail(rows[i]))]]
\* many-valued contexts are [o, a, v], v rows of texts
MvLines(c) == <<Join(Map(c.o, Text), "\t"), Join(Map(c.a, Text), "\t"), "">>
              \o [i \in DOMAIN c.o |-> Join(Map(c.v[i], Text), "\t")]
ParseMv(f) == [o |-> IF f[1] = "" THEN <<>> ELSE Map(Cells(f[1], "\t"), AsStr), a |-> Map(Cells(f[2], "\t"), AsStr),
               v |-> [i \in 1..(Len(f) - 3) |-> Map(Cells(f[i + 3], "\t"), AsStr)]]
ParseMvCsv(f) ==
   LET rows == TLCEval([i \in 1..(Len(f) - 1) |-> Cells(f[i + 1], ",")])
   IN [o |-> [i \in DOMAIN rows |-> AsStr(rows[i][1])], a |-> Map(Cells(f[1], ","), AsStr),
       v |-> [i \in DOMAIN rows |-> Map(Tail(rows[i]), AsStr)]]
ParseCsv(f) ==
   LET mv == TLCEval(ParseMvCsv(f))
   IN [o |-> mv.o, a |-> mv.a, r |-> [i \in DOMAIN mv.o |-> {mv.a[j] : j \in {k \in DOMAIN mv.a : mv.v[i][k] = "s:1"}}]]
\* files of these formats as a user would lay them out
TxtLines(c) == <<Join(Map(c.a, Text), "\t"), "">>
               \o [i \in DOMAIN c.o |-> Join([j \in DOMAIN c.a |-> IF c.a[j] \in c.r[i] THEN "1" ELSE "0"], "\t")]
TxtNamesLines(c) == <<Join(Map(c.a, Text), "\t"), "">>
               \o [i \in DOMAIN c.o |-> Join(<<Text(c.o[i])>> \o [j \in DOMAIN c.a |-> IF c.a[j] \in c.r[i] THEN "1" ELSE "0"], "\t")]
CsvLines(c) == <<Join(Map(c.a, Text), ",")>>
               \o [i \in DOMAIN c.o |-> Join(<<Text(c.o[i])>> \o [j \in DOMAIN c.a |-> IF c.a[j] \in c.r[i] THEN "1" ELSE "0"], ",")]
\* fimi: per object its attributes, in any order, separated by blanks
FimiOK(c, f) == /\ Len(f) = Len(c.o)
                /\ \A i \in DOMAIN f : LET tokens == TLCEval(SelectSeq(Cells(f[i], " "), LAMBDA x : x # ""))
                                       IN Distinct(tokens) /\ Rng(tokens) = {Text(y) : y \in c.r[i]}

Writers == {"cxt", "ucxt", "mv", "umv", "fimi"}
Readers == {"cxt", "ucxt", "txt", "txtnames", "mv", "umv", "mvcsv", "csv"}
WrittenOK(f, c, lines) == CASE f \in {"cxt", "ucxt"} -> lines = CxtLines(c)
                            [] f \in {"mv", "umv"} -> lines = MvLines(c)
                            [] f = "fimi" -> FimiOK(c, lines)
Readable(f, lines) == f \notin {"cxt", "ucxt"} \/ IsCxt(lines)
Follows(f, lines) == f \notin {"cxt", "ucxt"} \/ FollowsCxt(lines)
Parse(f, lines) == CASE f = "cxt" -> ParseCxt(lines, Literal) [] f = "ucxt" -> ParseCxt(lines, AsStr)
                     [] f = "txt" -> ParseTxt(lines) [] f = "txtnames" -> ParseTxtNames(lines)
                     [] f \in {"mv", "umv"} -> ParseMv(lines) [] f = "mvcsv" -> ParseMvCsv(lines)
                     [] f = "csv" -> ParseCsv(lines)
=============================================================================
