--------------------------- MODULE EvaluatorTrace ---------------------------
(* The assumption evaluator: after each step it must accept iff no assumption *)
(* that can be evaluated so far is false (so it rejects at the first step at  *)
(* which a false assumption has all its values).                              *)
EXTENDS ApcExecution, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, v
vars == <<k, i, v>>
Init == k \in 1..Len(Trace) /\ i = 0 /\ v = {}
\* expected answer of step j (1-based): number of steps done, or -1
Expected(c, j) == IF Alive(c.cons, SubSeq(c.states, 1, j)) THEN j ELSE -1
Next == /\ v = {} /\ i < Len(Trace[k].res)
        /\ k' = k /\ i' = i + 1
        /\ LET c == Trace[k]  e == Expected(c, i + 1)  r == c.res[i + 1] IN
           v' = IF r = e THEN (IF e # -1 /\ i + 1 = Len(c.res) /\ i + 1 # Len(c.states) THEN {"stopped"} ELSE {})
                ELSE IF e = -1 THEN {"missed"} ELSE IF r = -1 THEN {"rejected"} ELSE {"wrong"}
Spec == Init /\ [][Next]_vars
NoViolation == v = {}
=============================================================================
