--------------------------- MODULE DeterminismTrace ---------------------------
(* Building is a function of the block and the configuration: all             *)
(* observations of one input, made in different processes, with different     *)
(* hash seeds and numbers of threads, are the same.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, v, result
vars == <<k, i, v, result>>
Init == k \in 1..Len(Trace) /\ i = 0 /\ v = {} /\ result = "none"
Observe == /\ i < Len(Trace[k].obs)
           /\ i' = i + 1
           /\ k' = k
           /\ result' = IF i = 0 THEN Trace[k].obs[1] ELSE result
           /\ v' = IF i = 0 \/ Trace[k].obs[i + 1] = result THEN v ELSE v \cup {"differs"}
Spec == Init /\ [][Observe]_vars
NoViolation == v = {}
=============================================================================
