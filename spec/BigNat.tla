-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers of any size as little-endian sequences of 12-bit digits    *)
(* without leading zeros (zero is the empty sequence).                        *)
EXTENDS Integers, Sequences, Bitwise
B == 4096
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Wide(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
IsNat(a) == (\A i \in 1..Len(a) : a[i] \in 0..(B - 1)) /\ (a = <<>> \/ a[Len(a)] # 0)
RECURSIVE Strip(_)
Strip(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Strip(SubSeq(a, 1, Len(a) - 1))
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, c, acc) ==
  IF i > Wide(a, b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == Dig(a, i) + Dig(b, i) + c IN AddFrom(a, b, i + 1, s \div B, Append(acc, s % B))
Add(a, b) == AddFrom(a, b, 1, 0, <<>>)
RECURSIVE Conv(_, _, _, _, _)
Conv(a, b, n, j, s) == IF j > Len(a) \/ j > n THEN s ELSE Conv(a, b, n, j + 1, s + a[j] * Dig(b, n + 1 - j))
RECURSIVE MulFrom(_, _, _, _, _)
MulFrom(a, b, n, c, acc) ==
  IF n > Len(a) + Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == Conv(a, b, n, 1, c) IN MulFrom(a, b, n + 1, s \div B, Append(acc, s % B))
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Strip(MulFrom(a, b, 1, 0, <<>>))
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == i > 0 /\ (a[i] < b[i] \/ (a[i] = b[i] /\ LessAt(a, b, i - 1)))
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessAt(a, b, Len(a)))
Pow2(n) == [i \in 1..(n \div 12 + 1) |-> IF i = n \div 12 + 1 THEN 2 ^ (n % 12) ELSE 0]
RECURSIVE SmallBits(_)
SmallBits(x) == IF x = 0 THEN 0 ELSE 1 + SmallBits(x \div 2)
NumBits(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + SmallBits(a[Len(a)])
Bit(a, n) == (Dig(a, n \div 12 + 1) \div 2 ^ (n % 12)) % 2          \* bit number n, from 0
AndN(a, b) == Strip([i \in 1..Wide(a, b) |-> Dig(a, i) & Dig(b, i)])
OrN(a, b)  == Strip([i \in 1..Wide(a, b) |-> Dig(a, i) | Dig(b, i)])
XorN(a, b) == Strip([i \in 1..Wide(a, b) |-> Dig(a, i) ^^ Dig(b, i)])
RECURSIVE FromBytes(_)
FromBytes(bs) == IF bs = <<>> THEN <<>>
                 ELSE Add(Strip(<<Head(bs)>>), Mul(<<256>>, FromBytes(Tail(bs))))
One == <<1>>
Two == <<2>>
=============================================================================
