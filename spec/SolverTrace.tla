------------------------------ MODULE SolverTrace ------------------------------
(* The solver as a state machine: its state is the conjunction of everything *)
(* it was told; whatever it concludes must hold in all solutions of it.      *)
(* Recorded histories are replayed event by event.                          *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k,      \* which history
          i,      \* events consumed
          told,   \* what the solver was told: [cons, bus, rng]
          v       \* violated clauses of the last event
vars == <<k, i, told, v>>

Nothing == [cons |-> <<>>, bus |-> <<>>, rng |-> <<>>]
Allowed(p, r) == {x \in 0..(p - 1) : /\ IF r[2] <= r[3] THEN r[2] <= x /\ x <= r[3] ELSE r[2] <= x \/ x <= r[3]
                                     /\ (x & r[1]) = x}
Models(c, order) == {s \in Solutions(c.toy, told, order, c.nv) :
                       \A j \in 1..Len(told.rng) : s[told.rng[j].v] \in Allowed(c.toy.p, told.rng[j].r)}

QueryOk(c, S, q) ==
  LET p == c.toy.p IN
  CASE q.q = "assign" -> \A s \in S : s[q.v] = Ev(q.e, s, p)
    [] q.q = "range"  -> LET R == Allowed(p, q.r) IN \A s \in S : Ev(q.e, s, p) \in R
    [] q.q = "const"  -> \A s \in S : Ev(q.e, s, p) = q.k
    [] q.q = "diff"   -> \A s \in S : Ev(q.a, s, p) # Ev(q.b, s, p)

Init == k \in 1..Len(Trace) /\ i = 0 /\ told = Nothing /\ v = {}
Tell(e) == /\ v' = {}
           /\ told' = CASE e.t = "con" -> [told EXCEPT !.cons = Append(@, e.e)]
                        [] e.t = "bus" -> [told EXCEPT !.bus = Append(@, [id |-> e.id, mult |-> e.mult, args |-> e.args])]
                        [] e.t = "rng" -> [told EXCEPT !.rng = Append(@, e)]
                        [] OTHER       -> told        \* forgetting variables only weakens what is known
Answer(c, e) ==
  /\ told' = told
  /\ v' = IF ~OrderOk(told, e.order) THEN {"TOOL"} ELSE
          LET S == TLCEval(Models(c, e.order)) IN
          CASE e.t = "err"   -> Clause(S = {}, "contradiction")
            [] e.t = "panic" -> Clause(S = {}, "crash")
            [] e.t = "ok"    -> UNION {Clause(QueryOk(c, S, e.q[j]), e.q[j].q) : j \in 1..Len(e.q)}
Next == /\ i < Len(Trace[k].ev)
        /\ v = {}
        /\ i' = i + 1 /\ k' = k
        /\ LET e == Trace[k].ev[i + 1]
           IN IF e.t \in {"con", "bus", "rng", "retain"} THEN Tell(e) ELSE Answer(Trace[k], e)
Spec == Init /\ [][Next]_vars
NoViolation == v = {}
=============================================================================
