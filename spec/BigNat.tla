------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: little-endian sequences of digits base 10^4 *)
(* (TLC's integers end at 2^31).  Canonical: no leading zero digit.         *)
EXTENDS Integers, Sequences, TLC
BB == 10000
RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o BigOf(n \div BB)
Dig(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
   IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
   ELSE LET s == Dig(a, i) + Dig(b, i) + carry IN <<s % BB>> \o AddFrom(a, b, i + 1, s \div BB)
BAdd(a, b) == TLCEval(AddFrom(a, b, 1, 0))
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
   IF i > Len(a) THEN <<>>
   ELSE LET s == a[i] - Dig(b, i) - borrow IN <<IF s < 0 THEN s + BB ELSE s>> \o SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == TLCEval(Trim(SubFrom(a, b, 1, 0)))                  \* a >= b
RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, d, i, carry) ==
   IF i > Len(a) THEN BigOf(carry)
   ELSE LET s == a[i] * d + carry IN <<s % BB>> \o ScaleFrom(a, d, i + 1, s \div BB)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) == IF i > Len(b) THEN <<>>
                    ELSE AddFrom(Trim(ScaleFrom(a, b[i], 1, 0)), LET r == MulFrom(a, b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r, 1, 0)
BMul(a, b) == TLCEval(Trim(MulFrom(a, b, 1)))
RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN BigOf(1) ELSE BMul(a, BPow(a, k - 1))
RECURSIVE BPow2(_)
BPow2(k) == IF k = 0 THEN BigOf(1) ELSE LET h == TLCEval(BPow2(k \div 2)) IN IF k % 2 = 0 THEN BMul(h, h) ELSE BMul(BigOf(2), BMul(h, h))
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
BLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LeqFrom(a, b, Len(a))
\* a div d for a small number d
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, d, i, rest) == IF i = 0 THEN <<>>
                          ELSE LET x == rest * BB + a[i] IN DivFrom(a, d, i - 1, x % d) \o <<x \div d>>
BDivSmall(a, d) == TLCEval(Trim(DivFrom(a, d, Len(a), 0)))
BScale(a, d) == TLCEval(Trim(ScaleFrom(a, d, 1, 0)))              \* d < BB

(* Numbers between 0 and 1 (or a little more) as multiples of BB^-Places,   *)
(* rounded down                                                             *)
Places == 12
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN <<>> ELSE <<0>> \o Zeros(k - 1)
FOne == Zeros(Places) \o <<1>>
FMul(x, y) == LET z == BMul(x, y) IN TLCEval(SubSeq(z, Places + 1, Len(z)))
FFrac(x, num, den) == BDivSmall(BScale(x, num), den)              \* x * num / den
=============================================================================
