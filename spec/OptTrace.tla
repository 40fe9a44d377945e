------------------------------- MODULE OptTrace -------------------------------
(* Whole-optimizer refinement: each recorded run of the optimizer            *)
(* (orig -> new) must be a refinement in both directions.                    *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the clause to decide in this run, or "all"
Want(x) == IOEnv.WANT = x \/ IOEnv.WANT = "all"
VARIABLES k, v
vars == <<k, v>>

Verdict(c) ==
  IF ~OrderOk(c.orig, c.oorig) THEN {"TOOL"} ELSE
  LET t == c.toy
      S1 == TLCEval({s \in Solutions(t, c.orig, c.oorig, c.nv) : MemConsistent(t, c.orig, s)})
  IN IF c.res # "ok" THEN Clause(Want("incomplete") => S1 = {}, "rejects-satisfiable")
     ELSE IF ~OrderOk(c.new, c.onew) THEN {"TOOL"}
     ELSE IF S1 = {} THEN {}
     ELSE LET S2 == TLCEval({s \in Solutions(t, c.new, c.onew, c.nv) : MemConsistent(t, c.new, s)})
              obs == TLCEval({Net(t, c.orig, s) : s \in S1})
          IN Clause(Want("incomplete") => \A s \in S1 : LET d == Derive(t, c.new, s) IN
                       Sat(t, c.new, d) /\ Net(t, c.new, d) = Net(t, c.orig, s), "incomplete")
             \cup Clause(Want("unsound") => \A s \in S2 : Net(t, c.new, s) \in obs, "unsound")
             \cup Clause(Want("degree") =>
                         /\ \A i \in 1..Len(c.new.cons) : Degree(c.new.cons[i]) <= c.db[1]
                         /\ \A i \in 1..Len(c.new.bus) :
                              /\ Degree(c.new.bus[i].mult) <= c.db[2]
                              /\ \A j \in 1..Len(c.new.bus[i].args) : Degree(c.new.bus[i].args[j]) <= c.db[2], "degree")

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \in {{"pending"}, {}}
=============================================================================
