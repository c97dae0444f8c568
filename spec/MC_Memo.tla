------------------------------- MODULE MC_Memo -------------------------------
(* What a context keeps beside its table (fca/context.py): the pairs asked   *)
(* for, dropped by every edit, and the rows remembered while a computation   *)
(* runs.  Computations nest, end or fail, and read rows in any order; edits  *)
(* happen between computations.  Whatever is answered is the current value.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NObj, Vals, Nest, Edits
VARIABLES row, pairs, memos, ok, n
\* row: the table; pairs: <<>> or the pairs remembered; memos: the stack of
\* remembered rows of the running computations; ok: was every answer current
vars == <<row, pairs, memos, ok, n>>
None == -1
Init == row \in [1..NObj -> Vals] /\ pairs = <<>> /\ memos = <<>> /\ ok = TRUE /\ n = 0
AskPairs == /\ pairs' = (IF pairs = <<>> THEN <<row>> ELSE pairs) /\ ok' = (ok /\ pairs'[1] = row) /\ UNCHANGED <<row, memos, n>>
Edit == /\ memos = <<>> /\ n < Edits /\ n' = n + 1
        /\ \E i \in 1..NObj, v \in Vals : row' = [row EXCEPT ![i] = v]
        /\ pairs' = <<>> /\ UNCHANGED <<memos, ok>>
Begin == Len(memos) < Nest /\ memos' = Append(memos, [i \in 1..NObj |-> None]) /\ UNCHANGED <<row, pairs, ok, n>>
\* a memo asks the one below it
Value(s, i) == IF s = <<>> THEN row[i] ELSE LET k == {x \in 1..Len(s) : s[x][i] # None} IN
                  IF k = {} THEN row[i] ELSE s[CHOOSE x \in k : \A y \in k : y <= x][i]
Read(i) == /\ LET v == Value(memos, i) IN
              /\ ok' = (ok /\ v = row[i])
              /\ memos' = [x \in DOMAIN memos |-> IF memos[x][i] = None THEN [memos[x] EXCEPT ![i] = v] ELSE memos[x]]
           /\ UNCHANGED <<row, pairs, n>>
\* ending and failing both drop the memo and bring back the outer one
End == memos # <<>> /\ memos' = SubSeq(memos, 1, Len(memos) - 1) /\ UNCHANGED <<row, pairs, ok, n>>
Next == AskPairs \/ Edit \/ Begin \/ End \/ \E i \in 1..NObj : Read(i)
Spec == Init /\ [][Next]_vars
Current == ok
Fresh == memos = <<>> => \A i \in 1..NObj : Value(memos, i) = row[i]
Remembered == /\ (pairs = <<>> \/ pairs[1] = row)
              /\ \A x \in DOMAIN memos : \A i \in 1..NObj : memos[x][i] \in {None, row[i]}
=============================================================================
