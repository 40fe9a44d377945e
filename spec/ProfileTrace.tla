----------------------------- MODULE ProfileTrace -----------------------------
(* Figures that selection is based on.                                        *)
(*   profile: ev   = what the run reported, in order: <<1, pc>> an executed    *)
(*                   instruction, <<0, _>> something else, <<2, _>> another    *)
(*                   run's instruction;  list, count = the recorded profile    *)
(*   cost   : circuits and airs of the block's instructions, new = the         *)
(*            precompile, res = <<before, after>> as columns, constraints and  *)
(*            bus interactions                                                 *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>

Executed(c) == LET q == SelectSeq(c.ev, LAMBDA e : e[1] = 1) IN [i \in 1..Len(q) |-> q[i][2]]
Profile(c) ==
  LET q == Executed(c)
      times(pc) == Cardinality({i \in 1..Len(q) : q[i] = pc})
  IN Clause(c.list = q, "profile-order")
     \cup Clause(/\ {c.count[i][1] : i \in 1..Len(c.count)} = Range(q)
                 /\ Len(c.count) = Cardinality(Range(q))
                 /\ \A i \in 1..Len(c.count) : c.count[i][2] = times(c.count[i][1]), "profile-count")

Size(sys) == <<Cardinality(SysVars(sys)), Len(sys.cons), Len(sys.bus)>>
RECURSIVE Total(_, _, _)
Total(c, i, f) == IF i > Len(c.airs) THEN 0 ELSE Size(c.circuits[c.airs[i]])[f] + Total(c, i + 1, f)
Cost(c) ==
  Clause(\A f \in 1..3 : c.res[1][f] = Total(c, 1, f), "cost-before")
  \cup Clause(\A f \in 1..3 : c.res[2][f] = Size(c.new)[f], "cost-after")

Verdict(c) == IF ~c.ok THEN {"failed"} ELSE IF c.k = "profile" THEN Profile(c) ELSE Cost(c)
Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \in {{"pending"}, {}}
=============================================================================
