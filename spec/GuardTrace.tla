------------------------------ MODULE GuardTrace ------------------------------
(* Guarded precompiles: the padding row is inert, rows with a cleared flag    *)
(* say nothing on any bus, rows with a set flag are those of the circuit      *)
(* before guarding and say the same.                                          *)
(*   guarded, plain : the systems;  flag : the validity column (0: none)      *)
(*   og, ou         : enumeration orders of their columns                     *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>

\* all messages of a row, on every bus, with their number of occurrences
AllMessages(t, sys, s) ==
  LET M == [i \in 1..Len(sys.bus) |-> [id |-> sys.bus[i].id, m |-> Ev(sys.bus[i].mult, s, t.p), a |-> EvAll(sys.bus[i].args, s, t.p)]]
      A == {i \in 1..Len(sys.bus) : M[i].m # 0}
      same(i) == Cardinality({j \in A : M[j] = M[i]})
  IN {<<M[i], same(i)>> : i \in A}
Silent(t, sys, s) == \A i \in 1..Len(sys.bus) : Ev(sys.bus[i].mult, s, t.p) = 0
MaxDegree(sys) == MaxOf({0} \cup {Degree(sys.cons[i]) : i \in 1..Len(sys.cons)}
                   \cup UNION {{Degree(sys.bus[i].mult)} \cup {Degree(sys.bus[i].args[j]) : j \in 1..Len(sys.bus[i].args)} : i \in 1..Len(sys.bus)})

Verdict(c) ==
  IF c.res # "ok" THEN {"build-failed"}
  ELSE IF c.flag = 0 THEN {"no-validity-flag"}
  ELSE IF ~OrderOk(c.guarded, c.og) \/ ~OrderOk(c.plain, c.ou) \/ c.flag \in Range(c.ou) THEN {"TOOL"}
  ELSE LET t == c.toy
           G == TLCEval(Solutions(t, c.guarded, c.og, c.nv))
           U == TLCEval(Solutions(t, c.plain, c.ou, c.nv))
           cols == Range(c.og) \cup Range(c.ou)
           zero == [i \in 1..c.nv |-> 0]
           on == {s \in G : s[c.flag] = 1}
           \* columns the guarded machine does not mention any more are free
           cut(s) == [i \in 1..c.nv |-> IF i \in Range(c.og) \ {c.flag} THEN s[i] ELSE 0]
           set(s) == [s EXCEPT ![c.flag] = 1]
       IN Clause(Sat(t, c.guarded, zero) /\ Silent(t, c.guarded, zero), "padding-row")
          \cup Clause(\A s \in G : s[c.flag] \in {0, 1}, "flag-not-boolean")
          \cup Clause(\A s \in G : s[c.flag] = 0 => Silent(t, c.guarded, s), "speaks-when-off")
          \cup Clause({cut(s) : s \in on} = {cut(s) : s \in U}, "active-rows-differ")
          \cup Clause(\A s \in U : AllMessages(t, c.guarded, set(s)) = AllMessages(t, c.plain, s), "active-messages-differ")
          \cup Clause(MaxDegree(c.guarded) <= (IF MaxDegree(c.plain) > 2 THEN MaxDegree(c.plain) ELSE 2), "degree")

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \in {{"pending"}, {}}
=============================================================================
