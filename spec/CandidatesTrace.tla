-------------------------- MODULE CandidatesTrace --------------------------
(* The candidate tracker as a state machine; recorded histories of the real  *)
(* tracker are replayed: every answer must be one the specification allows.   *)
EXTENDS ApcExecution, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i,
          now,     \* clock
          cs,      \* candidates in insertion order
          last,    \* end of the latest call handed out so far
          v
vars == <<k, i, now, cs, last, v>>
Clause(ok, name) == IF ok THEN {} ELSE {name}
Init == k \in 1..Len(Trace) /\ i = 0 /\ now = 0 /\ cs = <<>> /\ last = 0 /\ v = {}

Advance(apcs, e) ==
  LET step(c) == IF c.done THEN c
                 ELSE LET h == Append(c.hist, e.st) IN
                      IF Len(h) = apcs[c.apc].len + 1
                      THEN [c EXCEPT !.hist = h, !.done = TRUE, !.to = e.id, !.end = now + 1]
                      ELSE [c EXCEPT !.hist = h]
  IN SelectSeq([x \in 1..Len(cs) |-> step(cs[x])], LAMBDA c : Alive(apcs[c.apc].cons, c.hist))

Check(apcs, e) == now' = now + 1 /\ cs' = Advance(apcs, e) /\ v' = {} /\ last' = last
Insert(apcs, e) ==
  LET ok == Alive(apcs[e.apc].cons, <<e.st>>) IN
  /\ v' = Clause(e.ok = ok, "start")
  /\ cs' = IF ok THEN Append(cs, [apc |-> e.apc, from |-> e.id, start |-> now, hist |-> <<e.st>>,
                                  done |-> FALSE, to |-> 0, end |-> 0])
           ELSE cs
  /\ UNCHANGED <<now, last>>
CountIn(s, a) == Cardinality({x \in 1..Len(s) : s[x] = a})
Abort(apcs, e) ==
  LET open == SelectSeq(cs, LAMBDA c : ~c.done) IN
  /\ v' = Clause(/\ Len(e.ids) = Len(open)
                 /\ \A a \in 1..Len(apcs) : CountIn(e.ids, a) = Cardinality({x \in 1..Len(open) : open[x].apc = a}), "abort")
  /\ cs' = SelectSeq(cs, LAMBDA c : c.done)
  /\ UNCHANGED <<now, last>>
\* the candidate a call was made from (start moments are unique)
CandOf(call) == {x \in 1..Len(cs) : cs[x].from = call[2]}
Extract(apcs, e) ==
  LET kept == UNION {CandOf(e.calls[j]) : j \in 1..Len(e.calls)} IN
  /\ v' = IF Undecided(cs) THEN Clause(e.calls = <<>>, "undecided")
          ELSE Clause(\A j \in 1..Len(e.calls) : \E x \in CandOf(e.calls[j]) :
                         cs[x].apc = e.calls[j][1] /\ cs[x].to = e.calls[j][3], "forged")
               \cup Clause(Cardinality(kept) = Len(e.calls), "repeated")
               \cup Clause(\A x, y \in kept : x # y => ~Overlap(cs[x], cs[y]), "overlap")
               \cup Clause(\A x \in kept : cs[x].start >= last, "overlap-earlier")
               \cup Clause(\A x \in (1..Len(cs)) \ kept :
                             \E y \in 1..Len(cs) : Overlap(cs[x], cs[y]) /\ Better(apcs, cs, y, x), "dropped")
  /\ cs' = IF Undecided(cs) THEN cs ELSE <<>>
  /\ last' = IF Undecided(cs) THEN last ELSE Max0({last} \cup {cs[x].end : x \in kept})
  /\ now' = now
Next == /\ v = {} /\ i < Len(Trace[k].ev)
        /\ k' = k /\ i' = i + 1
        /\ LET e == Trace[k].ev[i + 1]  a == Trace[k].apcs IN
           CASE e.t = "check"   -> Check(a, e)
             [] e.t = "insert"  -> Insert(a, e)
             [] e.t = "abort"   -> Abort(a, e)
             [] e.t = "extract" -> Extract(a, e)
             [] e.t = "panic"   -> v' = {"crash"} /\ UNCHANGED <<now, cs, last>>
Spec == Init /\ [][Next]_vars
NoViolation == v = {}
=============================================================================
