------------------------------ MODULE PassTrace ------------------------------
(* Single rewriting passes: each recorded step (orig -> new) of one pass must *)
(* keep the solutions on the columns that stay visible, and what it reports   *)
(* (assignments, value sets, parts) must follow from the system.              *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>

MaxConsDegree(sys) == MaxOf({0} \cup {Degree(sys.cons[i]) : i \in 1..Len(sys.cons)})
MaxBusDegree(sys) == MaxOf({0} \cup UNION {{Degree(sys.bus[i].mult)} \cup {Degree(sys.bus[i].args[j]) : j \in 1..Len(sys.bus[i].args)}
                                           : i \in 1..Len(sys.bus)})
\* the degree limits the pass promises, if any
Limits(c) == CASE c.pass = "rules" -> <<MaxConsDegree(c.orig), MaxBusDegree(c.orig)>>
               [] c.pass \in {"rulesdb", "inline", "range", "lowdegree"} -> c.db
               [] OTHER -> <<1000, 1000>>
\* Passes that rely on memory and execution consistency of the environment.
Environment(c) == c.pass \in {"memory", "exec"}
\* Columns on which the solutions must coincide. A pass that introduces a derived column may leave columns
\* behind that nothing observes any more: there, the messages on the stateful buses are what counts.
Visible(c) == IF Len(c.new.der) > Len(c.orig.der) THEN {} ELSE SysVars(c.orig) \cap SysVars(c.new)

Verdict(c) ==
  IF ~OrderOk(c.orig, c.oorig) THEN {"TOOL"} ELSE
  LET t == c.toy
      S1 == TLCEval(Solutions(t, c.orig, c.oorig, c.nv))
  IN IF S1 = {} THEN {}
     ELSE IF c.res # "ok" THEN {"rejects-satisfiable"}
     ELSE IF ~OrderOk(c.new, c.onew) THEN {"TOOL"}
     ELSE LET S2 == TLCEval(Solutions(t, c.new, c.onew, c.nv))
              V == Visible(c)
              key(sys, s) == <<[x \in V |-> s[x]], Net(t, sys, s)>>
              K1 == TLCEval({key(c.orig, s) : s \in S1})
              lim == Limits(c)
          IN Clause(\A s \in S1 : (Environment(c) => MemConsistent(t, c.orig, s)) =>
                      LET d == Derive(t, c.new, s) IN
                        /\ Sat(t, c.new, d)
                        /\ Net(t, c.new, d) = Net(t, c.orig, s)
                        /\ \A i \in 1..Len(c.assign) : d[c.assign[i].v] = Ev(c.assign[i].e, d, t.p)
                        /\ \A i \in 1..Len(c.claims) : d[c.claims[i].v] \in Range(c.claims[i].vals), "incomplete")
             \cup Clause(\A s \in S2 : key(c.new, s) \in K1, "unsound")
             \cup Clause(MaxConsDegree(c.new) <= lim[1] /\ MaxBusDegree(c.new) <= lim[2], "degree")
             \cup Clause(\A i, j \in 1..Len(c.parts) : i # j => Range(c.parts[i]) \cap Range(c.parts[j]) = {}, "parts-overlap")

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \in {{"pending"}, {}}
=============================================================================
