--------------------------- MODULE RangeConstraint ---------------------------
(***************************************************************************)
(* Range facts about field elements: a conjunction of a (possibly          *)
(* wrapping) interval and a bit mask, represented as <<mask, min, max>>.   *)
(* Gamma gives the meaning: the set of field elements the fact allows.     *)
(* The second half transcribes the operations of the implementation, so    *)
(* that the design itself can be checked for all facts over small fields.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, Bitwise

CONSTANT P                      \* the prime
F == 0..(P - 1)

RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
FullMask == 2^BitLen(P - 1) - 1

InInterval(r, x) == IF r[2] <= r[3] THEN r[2] <= x /\ x <= r[3] ELSE r[2] <= x \/ x <= r[3]
InMask(r, x) == (x & r[1]) = x
Gamma(r) == {x \in F : InInterval(r, x) /\ InMask(r, x)}

\* ---------------------------------------------------------------- soundness clauses
SumSound(a, b, r)  == \A x \in Gamma(a), y \in Gamma(b) : (x + y) % P \in Gamma(r)
ProdSound(a, b, r) == \A x \in Gamma(a), y \in Gamma(b) : (x * y) % P \in Gamma(r)
ConjSound(a, b, r) == (Gamma(a) \cap Gamma(b)) \subseteq Gamma(r)
DisjSound(a, b, r) == (Gamma(a) \cup Gamma(b)) \subseteq Gamma(r)
NegSound(a, r)     == \A x \in Gamma(a) : (P - x) % P \in Gamma(r)
SquareSound(a, r)  == \A x \in Gamma(a) : (x * x) % P \in Gamma(r)
MultSound(a, f, r) == \A x \in Gamma(a) : (f * x) % P \in Gamma(r)
DisjointSound(a, b, d) == d => (Gamma(a) \cap Gamma(b)) = {}

\* ---------------------------------------------------------------- transcription of the design
Min(x, y) == IF x <= y THEN x ELSE y
Max(x, y) == IF x >= y THEN x ELSE y
Neg(x) == (P - x) % P
Width(lo, hi) == IF (hi + 1) % P = lo THEN P ELSE (hi - lo + 1 + P) % P
FromMask(m) == <<m, 0, Min(m, P - 1)>>
FromRange(lo, hi) == <<IF lo <= hi THEN 2^BitLen(hi) - 1 ELSE FullMask, lo, hi>>
FromValue(v) == <<v, v, v>>
Unconstrained == FromRange(0, P - 1)

Sum(a, b) ==
  LET mask0 == IF a[1] + b[1] >= P THEN FullMask ELSE ((a[1] + b[1]) | a[1]) | b[1]
      iv == IF Width(a[2], a[3]) + Width(b[2], b[3]) <= P
            THEN <<(a[2] + b[2]) % P, (a[3] + b[3]) % P>> ELSE <<0, P - 1>>
      mask == IF iv[1] <= iv[2] THEN mask0 & FromRange(iv[1], iv[2])[1] ELSE mask0
  IN <<mask, iv[1], iv[2]>>

RangeMultiple(lo, hi, f) ==
  IF Width(lo, hi) * f <= P THEN <<(lo * f) % P, (hi * f) % P>> ELSE <<1, 0>>
IsPow2(f) == f # 0 /\ \E i \in 0..BitLen(P) : f = 2^i
Multiple(a, f) ==
  LET iv == IF f <= (P - 1) \div 2 THEN RangeMultiple(a[2], a[3], f)
            ELSE RangeMultiple(Neg(a[3]), Neg(a[2]), Neg(f))
      mask == IF IsPow2(f) /\ a[1] * f < P THEN a[1] * f ELSE FromRange(iv[1], iv[2])[1]
  IN <<mask, iv[1], iv[2]>>
IsSingle(a) == a[2] = a[3] /\ (a[2] & a[1]) = a[2]

Product(a, b) ==
  IF IsSingle(b) THEN Multiple(a, b[2])
  ELSE IF IsSingle(a) THEN Multiple(b, a[2])
  ELSE IF a[2] <= a[3] /\ b[2] <= b[3] /\ a[3] * b[3] < P
       THEN FromRange(a[2] * b[2], a[3] * b[3])
       ELSE Unconstrained
Square(a) ==
  LET m == Max(Neg(a[2]), a[3])
  IN IF a[2] > a[3] /\ m * m < P THEN FromRange(0, m * m) ELSE Product(a, a)

Shift(i, s) == <<(i[1] + s) % P, (i[2] + s) % P>>
\* <<>> stands for the empty intersection
Intersect(a, b) ==
  LET ok(s) == LET x == Shift(a, Neg(s)) y == Shift(b, Neg(s)) IN x[1] <= x[2] /\ y[1] <= y[2]
      at(s) == LET x == Shift(a, Neg(s)) y == Shift(b, Neg(s))
                   lo == Max(x[1], y[1]) hi == Min(x[2], y[2])
               IN IF lo <= hi THEN Shift(<<lo, hi>>, s) ELSE <<>>
  IN IF ok(a[1]) THEN at(a[1]) ELSE IF ok(b[1]) THEN at(b[1])
     ELSE IF Width(a[1], a[2]) <= Width(b[1], b[2]) THEN a ELSE b
Conj(a, b) ==
  LET mask == a[1] & b[1]
      i == Intersect(<<a[2], a[3]>>, <<b[2], b[3]>>)
      i0 == IF i = <<>> THEN <<0, 0>> ELSE i
      i1 == IF mask < P
            THEN IF i0[1] <= i0[2] THEN <<Min(mask, i0[1]), Min(mask, i0[2])>>
                 ELSE IF i0[1] > mask THEN <<0, Min(mask, i0[2])>> ELSE i0
            ELSE i0
  IN <<IF i1[1] <= i1[2] THEN mask & FromRange(i1[1], i1[2])[1] ELSE mask, i1[1], i1[2]>>
Disj(a, b) ==
  LET mask == a[1] | b[1]
      na == a[2] <= a[3]  nb == b[2] <= b[3]
      lo == Min(a[2], b[2])  hi == Max(a[3], b[3])
  IN IF na /\ nb THEN <<mask, lo, hi>>
     ELSE IF na # nb THEN FromMask(mask)
     ELSE IF lo <= hi THEN FromMask(mask) ELSE <<mask, lo, hi>>
NegRC(a) == FromRange(Neg(a[3]), Neg(a[2]))
Disjoint(a, b) ==
  LET zero == 0 \in Gamma(a) /\ 0 \in Gamma(b)
  IN (~zero /\ (a[1] & b[1]) = 0) \/ Intersect(<<a[2], a[3]>>, <<b[2], b[3]>>) = <<>>
=============================================================================
