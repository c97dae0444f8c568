----------------------------- MODULE MC_Storage -----------------------------
(* A store of files under a few paths: contexts are written, overwritten    *)
(* and read.  A ghost remembers what was written last; every reader of the  *)
(* right format gives it back, and a file without the header is refused.    *)
EXTENDS Storage, Json
CONSTANTS Names, Values, MaxN, MaxM, Paths, Depth
VARIABLES files, ghost, last, hist
vars == <<files, ghost, last, hist>>
\* the names that survive reading as literals: strings that are no integers, and integers
Injective(n, S) == {s \in [1..n -> S] : Distinct(s)}
Ctxs(z) == UNION {UNION {{[o |-> s, a |-> u, r |-> w] : s \in Injective(n, Names), u \in Injective(m, Names),
                       w \in [1..n -> SUBSET (1..m)]} : n \in 0..MaxN} : m \in 0..MaxM}
Real(c) == [c EXCEPT !.r = [i \in DOMAIN c.o |-> {c.a[j] : j \in c.r[i]}]]
Mvs(z) == UNION {UNION {{[o |-> s, a |-> u, v |-> w] : s \in Injective(n, Names), u \in Injective(m, Names),
                      w \in [1..n -> [1..m -> Values]]} : n \in 0..MaxN} : m \in 1..MaxM}
AllStr(c) == \A x \in Rng(c.o) \cup Rng(c.a) : SubSeq(x, 1, 2) = "s:"
NonEmpty(c) == \A x \in Rng(c.o) \cup Rng(c.a) : x # "s:"
Absent == [f |-> "none"]
Init == files = [p \in Paths |-> <<>>] /\ ghost = [p \in Paths |-> Absent] /\ last = Absent /\ hist = <<>>
Put(f, p, c, lines) == /\ files' = [files EXCEPT ![p] = lines] /\ ghost' = [ghost EXCEPT ![p] = [f |-> f, c |-> c]]
                       /\ last' = Absent /\ hist' = Append(hist, [op |-> "write", f |-> f, p |-> p, c |-> c])
Formats == {"cxt", "mv", "txtnames", "csv"}
Write(f, p) ==
   CASE f = "cxt" -> \E c0 \in Ctxs(1) : LET c == Real(c0) IN Put(f, p, c, CxtLines(c))
     [] f = "mv" -> \E c \in Mvs(1) : AllStr(c) /\ NonEmpty(c) /\ Put(f, p, c, MvLines(c))
     [] f = "txtnames" -> \E c0 \in Ctxs(1) : LET c == Real(c0) IN c.a # <<>> /\ AllStr(c) /\ NonEmpty(c) /\ Put(f, p, c, TxtNamesLines(c))
     [] f = "csv" -> \E c0 \in Ctxs(1) : LET c == Real(c0) IN c.a # <<>> /\ AllStr(c) /\ NonEmpty(c) /\ Put(f, p, c, CsvLines(c))
ReaderOf(f) == CASE f = "cxt" -> {"cxt", "ucxt"} [] f = "mv" -> {"mv", "umv"} [] OTHER -> {f}
Read(p) == /\ ghost[p] # Absent
           /\ \E g \in ReaderOf(ghost[p].f) :
                /\ last' = [f |-> g, p |-> p, c |-> Parse(g, files[p])]
                /\ hist' = Append(hist, [op |-> "read", f |-> g, p |-> p, c |-> Absent])
           /\ UNCHANGED <<files, ghost>>
Next == \E p \in Paths : Read(p) \/ \E f \in Formats : Write(f, p)
RoundTrip == last # Absent =>
               \/ last.c = ghost[last.p].c
               \/ last.f = "cxt" /\ \E x \in Rng(ghost[last.p].c.o) \cup Rng(ghost[last.p].c.a) : SubSeq(x, 1, 2) = "s:" /\ IsInt(Text(x))
               \/ last.f = "ucxt" /\ ~ AllStr(ghost[last.p].c)          \* the plain reader knows no integers
HeaderKnown == \A p \in Paths : ghost[p] # Absent /\ ghost[p].f = "cxt" => IsCxt(files[p])
WrittenFits == \A p \in Paths : ghost[p] # Absent /\ ghost[p].f \in Writers => WrittenOK(ghost[p].f, ghost[p].c, files[p])
View == <<files, ghost, last>>
Pick(S) == CHOOSE x \in {RandomElement(S)} : TRUE
Strings == {x \in Names : x # "s:" /\ SubSeq(x, 1, 2) = "s:"}
\* some context, drawn part by part
Draw(o, a) == {[o |-> o, a |-> a, r |-> w] : w \in {[i \in DOMAIN o |-> Pick(SUBSET Rng(a))]}}
DrawMv(o, a) == {[o |-> o, a |-> a, v |-> w] : w \in {[i \in DOMAIN o |-> Pick([DOMAIN a -> Values])]}}
Random == Len(hist) < Depth /\
          \E p \in {Pick(Paths)} : IF ghost[p] # Absent /\ Pick(1..3) = 1 THEN Read(p)
                                   ELSE \E f \in {Pick({"cxt", "mv"})} :
                                        \E n \in {Pick(0..MaxN)} : \E m \in {Pick(1..MaxM)} :
                                          IF f = "cxt" THEN \E o \in {Pick(Injective(n, Names))} : \E a \in {Pick(Injective(m, Names))} :
                                                              \E c \in Draw(o, a) : Put(f, p, c, CxtLines(c))
                                          ELSE \E o \in {Pick(Injective(n, Strings))} : \E a \in {Pick(Injective(m, Strings))} :
                                                              \E c \in DrawMv(o, a) : Put(f, p, c, MvLines(c))
Out == Len(hist) = Depth => PrintT("@SCN@" \o ToJson(hist))
=============================================================================
