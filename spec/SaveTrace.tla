------------------------------- MODULE SaveTrace -------------------------------
(* Saved artefacts: a medium holds what was written to it, so reading it       *)
(* returns the same contents.  Contents are trees [t: tag, s: scalar,          *)
(* c: children]; the children of a "set" are unordered.  Raw field data is     *)
(* read as the number it spells if that is a canonical residue and refused     *)
(* otherwise.  A constraint system may be written in another shape, with the   *)
(* same meaning.                                                               *)
EXTENDS ConstraintSystem, Json, IOUtils
N == INSTANCE BigNat
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>

Prime == [babybear   |-> <<1, 0, 120>>,
          koalabear  |-> <<1, 0, 127>>,
          mersenne31 |-> <<4095, 4095, 127>>,
          goldilocks |-> <<1, 0, 3840, 4095, 4095, 15>>,
          bn254      |-> <<1, 0, 1008, 3929, 993, 2324, 2416, 1947, 2120, 830, 3368, 1413, 385, 2920, 69, 2949, 41, 794, 737, 1255, 100, 3>>]

RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t
  /\ a.s = b.s
  /\ Len(a.c) = Len(b.c)
  /\ IF a.t = "set"
     THEN /\ \A i \in 1..Len(a.c) : \E j \in 1..Len(b.c) : Same(a.c[i], b.c[j])
          /\ \A j \in 1..Len(b.c) : \E i \in 1..Len(a.c) : Same(a.c[i], b.c[j])
     ELSE \A i \in 1..Len(a.c) : Same(a.c[i], b.c[i])

SameMeaning(x, y, n, p) == \A s \in [1..n -> 0..(p - 1)] : Ev(x, s, p) = Ev(y, s, p)
SameAll(xs, ys, n, p) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : SameMeaning(xs[i], ys[i], n, p)
SameBus(x, y, n, p) == x.id = y.id /\ SameMeaning(x.mult, y.mult, n, p) /\ SameAll(x.args, y.args, n, p)
SameDer(x, y, n, p) ==
  /\ x.v = y.v /\ x.m = y.m
  /\ IF x.m = "const" THEN x.k = y.k
     ELSE SameMeaning(x.a, y.a, n, p) /\ SameMeaning(x.b, y.b, n, p)
SameSystem(x, y, n, p) ==
  /\ SameAll(x.cons, y.cons, n, p)
  /\ Len(x.bus) = Len(y.bus) /\ \A i \in 1..Len(x.bus) : SameBus(x.bus[i], y.bus[i], n, p)
  /\ Len(x.der) = Len(y.der) /\ \A i \in 1..Len(x.der) : SameDer(x.der[i], y.der[i], n, p)

Read(e) ==              \* the outcome the specification prescribes for raw data
  IF e.wf = "int" /\ N!Less(e.a, Prime[e.f]) THEN <<e.a>> ELSE <<>>
Verdict(e) ==
  CASE e.kind = "save" -> IF ~e.ok THEN {"cannot be read back: " \o e.what \o " " \o e.fmt}
                          ELSE Clause(Same(e.before, e.after), "reads back different: " \o e.what \o " " \o e.fmt)
    [] e.kind = "raw"  -> Clause(e.r = Read(e), "raw field data: " \o e.f \o " " \o e.fmt)
    [] OTHER -> IF ~e.ok THEN {"system cannot be read back"}
                ELSE Clause(SameSystem(e.before, e.after, e.n, e.toy.p), "system reads back different")

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \subseteq {"pending"}
=============================================================================
