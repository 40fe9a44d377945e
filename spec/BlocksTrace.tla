----------------------------- MODULE BlocksTrace -----------------------------
EXTENDS Blocks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
What == IOEnv.WHAT
VARIABLES k, i, v
vars == <<k, i, v>>
Init == k \in 1..Len(Trace) /\ i = 0 /\ v = {}

Basic(c) ==
  LET fl == c.flags  S == Starts(fl)
      pcOf(j) == c.base + c.step * (j - 1)
  IN IF ~c.ok THEN {"crash"} ELSE
     Clause(Flatten([b \in 1..Len(c.blocks) |-> c.blocks[b].ids]) = [j \in 1..Len(fl) |-> j], "partition")
     \cup Clause({Head(c.blocks[b].ids) : b \in {b \in 1..Len(c.blocks) : c.blocks[b].ids # <<>>}} = S, "boundaries")
     \cup Clause(\A b \in 1..Len(c.blocks) : c.blocks[b].ids # <<>>, "empty")
     \cup Clause(\A b \in 1..Len(c.blocks) : c.blocks[b].ids # <<>> =>
                   /\ c.blocks[b].pc = pcOf(Head(c.blocks[b].ids))
                   /\ c.blocks[b].pcs = [j \in 1..Len(c.blocks[b].ids) |-> pcOf(c.blocks[b].ids[j])]
                   /\ c.blocks[b].ipcs = c.blocks[b].pcs, "pc")
     \cup Clause(\A s \in S : \E b \in 1..Len(c.blocks) : c.blocks[b].ids = BlockFrom(fl, s), "blocks")

Super(c) ==
  IF ~c.ok THEN {"crash"} ELSE
  LET rs == TLCEval(RunsOf(c.blocks, c.exec, <<>>))
      W == TLCEval(Reported(c, rs))
      found == {c.found[j].pcs : j \in 1..Len(c.found)}
  IN Clause(/\ {c.runs[j].pcs : j \in 1..Len(c.runs)} = Range(rs)
            /\ Cardinality(Range(rs)) = Len(c.runs)
            /\ \A j \in 1..Len(c.runs) : c.runs[j].n = Multiplicity(rs, c.runs[j].pcs), "runs")
     \cup Clause(W \subseteq found, "missing")
     \cup Clause(found \subseteq W /\ Cardinality(found) = Len(c.found), "extra")
     \cup Clause(\A j \in 1..Len(c.found) : c.found[j].pcs \in W => c.found[j].n = CountIn(rs, c.found[j].pcs), "count")
     \cup Clause(\A j \in 1..Len(c.found) : c.found[j].pcs \in W =>
                   LET x == c.found[j] IN
                   /\ x.ids = InstrIds(c.blocks, x.pcs)
                   /\ x.ipcs = InstrPcs(c.blocks, x.pcs) /\ x.iipcs = x.ipcs
                   /\ x.offs = [b \in 1..Len(x.pcs) |-> <<Len(InstrIds(c.blocks, SubSeq(x.pcs, 1, b - 1))), x.pcs[b]>>], "instructions")

\* selection states reachable when the visible choices are those observed
RECURSIVE Reach(_, _, _, _)
Reach(c, cand, St, j) ==        \* St: states after j choices
  LET m == c.n + c.skip
      stop == {s \in St : j = m \/ Best(c, cand, s) = {}}
      next == IF j = m THEN {}
              ELSE UNION {{Select(c, s, w) : w \in {w \in Best(c, cand, s) :
                             j < c.skip \/ (j - c.skip < Len(c.out) /\ c.out[j - c.skip + 1] = w)}} : s \in St}
  IN (IF j >= c.skip + Len(c.out) \/ (j < c.skip /\ c.out = <<>>) THEN stop # {} ELSE FALSE)
     \/ (next # {} /\ Reach(c, cand, next, j + 1))
Cell(c) ==
  LET rs == TLCEval(RunsOf(c.blocks, c.exec, <<>>))  cand == TLCEval(Reported(c, rs)) IN
  IF c.n = 0 THEN Clause(c.out = <<>>, "selection")
  ELSE Clause(Reach(c, cand, {[left |-> rs, cost |-> 0, chosen |-> <<>>]}, 0), "selection")
\* top n after the skipped ones, by a value; ties in any way
Top(c, cand, val(_)) ==
  LET n == Cardinality(cand)
      want == IF n <= c.skip THEN 0 ELSE IF n - c.skip < c.n THEN n - c.skip ELSE c.n
      out == Range(c.out)
      better(w) == Cardinality({u \in cand : val(u) > val(w)})
      worse(w) == Cardinality({u \in cand : val(u) < val(w)})
  IN Clause(/\ Len(c.out) = want /\ Cardinality(out) = want /\ out \subseteq cand
            \* for every value x: the number of chosen blocks with value at least x is what ranks skip+1..skip+n contain
            /\ \A w \in cand :
                 LET atleast == n - worse(w)
                     lo == IF atleast > c.skip THEN atleast - c.skip ELSE 0
                 IN Cardinality({u \in out : val(u) >= val(w)}) = IF lo < want THEN lo ELSE want, "top")
Instr(c) == LET rs == TLCEval(RunsOf(c.blocks, c.exec, <<>>)) IN
            Top(c, Reported(c, rs), LAMBDA w : CountIn(rs, w) * Len(InstrIds(c.blocks, w)))
NoPgo(c) == Top(c, {<<b.pc>> : b \in {b \in Range(c.blocks) : Len(b.ids) > 1}}, LAMBDA w : Len(InstrIds(c.blocks, w)))
Pgo(c) == IF ~c.ok THEN {"crash"} ELSE CASE c.kind = "cell" -> Cell(c) [] c.kind = "instruction" -> Instr(c) [] OTHER -> NoPgo(c)

\* assumptions of a precompile for a block sequence: <<start, length>> each
OffsetOf(bs, j) == SumSeq([m \in 1..(j - 1) |-> bs[m][2]])
Accepts(bs, w) == \A j \in 1..Len(bs) : w[OffsetOf(bs, j) + 1] = bs[j][1]
Assume(c) ==
  Clause(c.starts = [j \in 1..Len(c.blocks) |-> c.blocks[j][1]], "identity")
  \cup Clause(\A j \in 1..Len(c.windows) : (c.windows[j].res = Len(c.windows[j].pcs)) = Accepts(c.blocks, c.windows[j].pcs), "window")

Next == /\ i = 0 /\ i' = 1 /\ k' = k
        /\ v' = CASE What = "basic" -> Basic(Trace[k])
                  [] What = "super" -> Super(Trace[k])
                  [] What = "pgo" -> Pgo(Trace[k])
                  [] What = "windows" -> Assume(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v = {}
=============================================================================
