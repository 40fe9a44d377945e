----------------------------- MODULE RangeDesign -----------------------------
(* Exhaustive check of the transcribed range-constraint design: every pair   *)
(* of representable facts over F_P.                                          *)
EXTENDS RangeConstraint, TLC
VARIABLES a, b
vars == <<a, b>>
RC == (0..FullMask) \X F \X F
None == <<0, 0, -1>>
Init == a \in RC /\ b = None
Next == b = None /\ b' \in RC /\ a' = a
Spec == Init /\ [][Next]_vars
UnarySound == b = None =>
  /\ NegSound(a, NegRC(a)) /\ SquareSound(a, Square(a))
  /\ \A f \in F : MultSound(a, f, Multiple(a, f))
  /\ (IsSingle(a) => Gamma(a) = {a[2]})
  /\ Cardinality(Gamma(a)) <= Width(a[2], a[3])
BinarySound == b # None =>
  /\ SumSound(a, b, Sum(a, b)) /\ ProdSound(a, b, Product(a, b))
  /\ ConjSound(a, b, Conj(a, b)) /\ DisjSound(a, b, Disj(a, b))
  /\ DisjointSound(a, b, Disjoint(a, b))
=============================================================================
