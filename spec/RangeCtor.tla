------------------------------ MODULE RangeCtor ------------------------------
(* Recorded constructors denote exactly the set they are documented to.      *)
EXTENDS RangeConstraint, TLC, Json, IOUtils
PEnv == atoi(IOEnv.P)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>
Meaning(t) ==
  CASE t.kind = "mask"  -> {x \in F : (x & t.x) = x}
    [] t.kind = "bit"   -> {x \in F : x < 2^(t.x + 1)}
    [] t.kind = "value" -> {t.x}
    [] t.kind = "range" -> {x \in F : IF t.x <= t.y THEN t.x <= x /\ x <= t.y ELSE t.x <= x \/ x <= t.y}
    [] t.kind = "un"    -> F
Verdict(t) == IF Len(t.r) = 3 /\ Gamma(t.r) = Meaning(t) THEN {} ELSE {"constructor-" \o t.kind}
Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \in {{"pending"}, {}}
=============================================================================
