-------------------------- MODULE CandidatesDesign --------------------------
(* The design of the tracker, for every schedule of starts, failures, aborts  *)
(* and extractions: overlaps are resolved by one pass over all pairs in       *)
(* insertion order, skipping already discarded candidates.                    *)
EXTENDS ApcExecution
CONSTANTS MaxTime, MaxCands
\* four precompiles: lengths 1..3, two priority levels
Apcs == << [len |-> 1, prio |-> 1, cons |-> <<>>], [len |-> 2, prio |-> 0, cons |-> <<>>],
           [len |-> 3, prio |-> 0, cons |-> <<>>], [len |-> 2, prio |-> 1, cons |-> <<>>] >>
VARIABLES now, cs, out, dropped, prev
vars == <<now, cs, out, dropped, prev>>
Init == now = 0 /\ cs = <<>> /\ out = <<>> /\ dropped = <<>> /\ prev = 0
Insert == \E a \in 1..Len(Apcs) :
  /\ Len(cs) < MaxCands
  /\ cs' = Append(cs, [apc |-> a, start |-> now, done |-> FALSE, end |-> now + Apcs[a].len])
  /\ out' = <<>> /\ dropped' = <<>> /\ UNCHANGED <<now, prev>>
Tick == /\ now < MaxTime
        /\ now' = now + 1
        /\ \E fail \in SUBSET {x \in 1..Len(cs) : ~cs[x].done} :
             LET keep == [x \in 1..Len(cs) |-> [cs[x] EXCEPT !.done = @ \/ cs[x].end = now + 1]]
                 idx == SelectSeq([x \in 1..Len(cs) |-> x], LAMBDA x : x \notin fail)
             IN cs' = [j \in 1..Len(idx) |-> keep[idx[j]]]
        /\ out' = <<>> /\ dropped' = <<>> /\ prev' = prev
Abort == cs' = SelectSeq(cs, LAMBDA c : c.done) /\ out' = <<>> /\ dropped' = <<>> /\ UNCHANGED <<now, prev>>
\* all pairs <<x, y>>, x < y, in lexicographic order; d: discarded so far
RECURSIVE Pass(_, _, _)
Pass(x, y, d) ==
  IF x >= Len(cs) THEN d
  ELSE IF y > Len(cs) THEN Pass(x + 1, x + 2, d)
  ELSE IF x \in d \/ y \in d \/ ~Overlap(cs[x], cs[y]) THEN Pass(x, y + 1, d)
  ELSE Pass(x, y + 1, d \cup {IF Better(Apcs, cs, x, y) THEN y ELSE x})
Extract ==
  /\ cs # <<>> /\ ~Undecided(cs)
  /\ LET d == Pass(1, 2, {}) IN
     /\ out' = [x \in (1..Len(cs)) \ d |-> cs[x]]
     /\ dropped' = [x \in d |-> \E y \in 1..Len(cs) : Overlap(cs[x], cs[y]) /\ Better(Apcs, cs, y, x)]
     /\ prev' = Max0({cs[x].end : x \in 1..Len(cs)})
  /\ cs' = <<>> /\ now' = now
Next == Insert \/ Tick \/ Abort \/ Extract
Spec == Init /\ [][Next]_vars
Disjoint == \A x, y \in DOMAIN out : x # y => ~Overlap(out[x], out[y])
Justified == \A x \in DOMAIN dropped : dropped[x]
\* candidates never reach back before calls handed out earlier
NoReachBack == \A x \in 1..Len(cs) : cs[x].start >= prev
\* the best candidate of all is always handed out
BestKept == (DOMAIN out # {}) \/ (DOMAIN dropped = {})
=============================================================================
