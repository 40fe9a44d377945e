------------------------------ MODULE RangeTrace ------------------------------
(* Conformance of recorded range-constraint operations: one case per fact    *)
(* `a`, with all its partners `b`.                                           *)
EXTENDS RangeConstraint, TLC, Json, IOUtils
PEnv == atoi(IOEnv.P)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
\* a panic of the implementation is recorded as <<-1>>
IsRC(r) == Len(r) = 3 /\ r[2] \in F /\ r[3] \in F

If(c, name) == IF c THEN {} ELSE {name}
RC(r, cond) == IF IsRC(r) THEN cond ELSE FALSE

BinClauses(a, q) ==
  LET b == q[1]
      ga == Gamma(a)  gb == Gamma(b)
  IN If(RC(q[2], LET g == Gamma(q[2]) IN \A x \in ga, y \in gb : (x + y) % P \in g), "sum")
     \cup If(RC(q[3], LET g == Gamma(q[3]) IN \A x \in ga, y \in gb : (x * y) % P \in g), "product")
     \cup If(RC(q[4], (ga \cap gb) \subseteq Gamma(q[4])), "conjunction")
     \cup If(RC(q[5], (ga \cup gb) \subseteq Gamma(q[5])), "disjunction")
     \cup If(q[6] = <<0>> \/ (q[6] = <<1>> /\ (ga \cap gb) = {}), "disjoint")

Verdict(t) ==
  LET a == t.a ga == Gamma(a)
  IN If(ToSet(t.allow) = ga, "allows-value")
     \cup If(t.single = -1 \/ ga = {t.single}, "single-value")
     \cup If(t.width >= Cardinality(ga) /\ t.size >= Cardinality(ga), "size")
     \cup If(ToSet(t.vals) = ga, "allowed-values")
     \cup If(t.un => ga = F, "unconstrained")
     \cup If(RC(t.neg, NegSound(a, t.neg)), "negation")
     \cup If(RC(t.sq, SquareSound(a, t.sq)), "square")
     \cup If(\A f \in F : RC(t.mult[f + 1], MultSound(a, f, t.mult[f + 1])), "multiple")
     \cup UNION {BinClauses(a, t.b[i]) : i \in 1..Len(t.b)}

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \in {{"pending"}, {}}
=============================================================================
