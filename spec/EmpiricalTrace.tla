--------------------------- MODULE EmpiricalTrace ---------------------------
(* Empirical constraints: what is concluded from a set of recorded runs is    *)
(* exactly what every run supports.                                           *)
(* A case goes through the stages  merge -> threshold -> per block (+ one per *)
(* filter) -> constraint generation; the specification carries its own state  *)
(* (ranges, relation) from stage to stage and compares with the real one.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i,
          rng,   \* facts <<pc, col, lo, hi>> carried by the specification
          rel,   \* symmetric relation on cells <<instruction, column>>
          v
vars == <<k, i, rng, rel, v>>
Clause(ok, name) == IF ok THEN {} ELSE {name}
ToSet(s) == {s[x] : x \in 1..Len(s)}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Rel(cl) == UNION {{<<a, b>> \in ToSet(cl[c]) \X ToSet(cl[c]) : a # b} : c \in 1..Len(cl)}
WellFormed(cl) == \A c, d \in 1..Len(cl) : Len(cl[c]) >= 2 /\ (c # d => ToSet(cl[c]) \cap ToSet(cl[d]) = {})
\* one run as sets of facts
Ranges(e) == UNION {{<<x.pc, c - 1, x.r[c][1], x.r[c][2]>> : c \in 1..Len(x.r)} : x \in ToSet(e.ranges)}
Pcs(e) == {x.pc : x \in ToSet(e.ranges)}
BlockPcs(e) == {x.pc : x \in ToSet(e.classes)}
RelOf(e, pc) == LET x == CHOOSE x \in ToSet(e.classes) : x.pc = pc IN Rel(x.c)
Count(e, pc) == IF \E x \in ToSet(e.counts) : x[1] = pc THEN (CHOOSE x \in ToSet(e.counts) : x[1] = pc)[2] ELSE 0
RECURSIVE Sum(_, _)
Sum(s, f) == IF s = <<>> THEN 0 ELSE f[Head(s)] + Sum(Tail(s), f)
\* ---- the merged statistics
Hull(runs) == LET all == UNION {Ranges(runs[r]) : r \in 1..Len(runs)}
                  keys == {<<x[1], x[2]>> : x \in all}
              IN {<<q[1], q[2], MinS({x[3] : x \in {y \in all : y[1] = q[1] /\ y[2] = q[2]}}),
                               MaxS({x[4] : x \in {y \in all : y[1] = q[1] /\ y[2] = q[2]}})>> : q \in keys}
MBlocks(runs) == UNION {BlockPcs(runs[r]) : r \in 1..Len(runs)}
MRel(runs, pc) == LET have == {r \in 1..Len(runs) : pc \in BlockPcs(runs[r])}
                      any == CHOOSE r \in have : TRUE
                  IN {p \in RelOf(runs[any], pc) : \A r \in have : p \in RelOf(runs[r], pc)}
MCounts(runs) == {<<pc, Sum([r \in 1..Len(runs) |-> r], [r \in 1..Len(runs) |-> Count(runs[r], pc)])>> :
                     pc \in UNION {{x[1] : x \in ToSet(runs[r].counts)} : r \in 1..Len(runs)}}
MAirs(runs) == UNION {ToSet(runs[r].airs) : r \in 1..Len(runs)}
Merge(t) ==
  LET m == t.merged IN
  Clause(Ranges(m) = Hull(t.runs), "merge-ranges")
  \cup Clause(BlockPcs(m) = MBlocks(t.runs)
              /\ \A x \in ToSet(m.classes) : WellFormed(x.c) /\ Rel(x.c) = MRel(t.runs, x.pc), "merge-classes")
  \cup Clause(ToSet(m.counts) = MCounts(t.runs), "merge-counts")
  \cup Clause(ToSet(m.airs) = MAirs(t.runs), "merge-debug")
\* ---- the execution-count threshold
Threshold(t) ==
  LET m == t.merged  h == t.thr IN
  Clause(Ranges(h) = {x \in Ranges(m) : Count(m, x[1]) >= t.threshold}, "threshold-ranges")
  \cup Clause(BlockPcs(h) = {pc \in BlockPcs(m) : Count(m, pc) >= t.threshold}
              /\ \A pc \in BlockPcs(h) : RelOf(h, pc) = RelOf(m, pc), "threshold-classes")
  \cup Clause(ToSet(h.counts) = ToSet(m.counts) /\ ToSet(h.airs) = ToSet(m.airs), "threshold-rest")
\* ---- a (super)block: the instruction sequence of its basic blocks
RECURSIVE Concat(_)
Concat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs).pcs \o Concat(Tail(bs))
Offset(bs, b) == Len(Concat(SubSeq(bs, 1, b - 1)))
BlockRng(t) == {x \in Ranges(t.merged) : x[1] \in ToSet(Concat(t.blocks))}
BlockRel(t) == UNION {IF t.blocks[b].pc \in BlockPcs(t.merged)
                      THEN {<<<<p[1][1] + Offset(t.blocks, b), p[1][2]>>, <<p[2][1] + Offset(t.blocks, b), p[2][2]>>>> :
                               p \in RelOf(t.merged, t.blocks[b].pc)}
                      ELSE {} : b \in 1..Len(t.blocks)}
FilterRng(t, R, keep) == LET pcs == Concat(t.blocks) IN
   {x \in R : \A j \in 1..Len(pcs) : pcs[j] = x[1] => <<j - 1, x[2]>> \in keep}
FilterRel(R, keep) == {p \in R : p[1] \in keep /\ p[2] \in keep}
StepOk(s, R, E) == Clause(ToSet(s.ranges) = R, "block-ranges")
                   \cup Clause(WellFormed(s.classes) /\ Rel(s.classes) = E, "block-classes")
\* ---- generated constraints
Known(t, R) == LET pcs == Concat(t.blocks) IN
   UNION {{<<<<j - 1, x[2]>>, x[3]>> : x \in {y \in R : y[1] = pcs[j] /\ y[3] = y[4]}} : j \in 1..Len(pcs)}
Eqs(t) == {<<<<p[1][2], p[1][3]>>, <<p[2][2], p[2][3]>>>> : p \in {q \in ToSet(t.cons) : q[1][1] = 1 /\ q[2][1] = 1}}
Vals(t) == {<<<<p[1][2], p[1][3]>>, p[2][2]>> : p \in {q \in ToSet(t.cons) : q[1][1] = 1 /\ q[2][1] = 0}}
RECURSIVE Close(_)
Close(R) == LET S == R \cup {<<p[2], p[1]>> : p \in R}
                T == S \cup {<<p[1], q[2]>> : <<p, q>> \in {z \in S \X S : z[1][2] = z[2][1] /\ z[1][1] # z[2][2]}}
            IN IF T = R THEN R ELSE Close(T)
Generate(t) ==
  Clause(Vals(t) = Known(t, rng), "constants")
  \cup Clause(Close(Eqs(t)) = rel, "equalities")
  \cup Clause(\A q \in ToSet(t.cons) : q[1][1] = 1, "shape")
Init == k \in 1..Len(Trace) /\ i = 0 /\ rng = {} /\ rel = {} /\ v = {}
N(t) == IF t.ok THEN Len(t.steps) + 3 ELSE 1
Next == /\ v = {} /\ i < N(Trace[k]) /\ i' = i + 1 /\ k' = k
        /\ LET t == Trace[k] IN
           CASE ~t.ok -> v' = {"crash"} /\ UNCHANGED <<rng, rel>>
             [] t.ok /\ i = 0 -> v' = Merge(t) /\ UNCHANGED <<rng, rel>>
             [] t.ok /\ i = 1 -> v' = Threshold(t) /\ UNCHANGED <<rng, rel>>
             [] t.ok /\ i = 2 -> /\ rng' = BlockRng(t) /\ rel' = BlockRel(t)
                                 /\ v' = StepOk(t.steps[1], rng', rel')
             [] t.ok /\ i > 2 /\ i < Len(t.steps) + 2 ->
                  LET keep == ToSet(t.filters[i - 2]) IN
                  /\ rng' = FilterRng(t, rng, keep) /\ rel' = FilterRel(rel, keep)
                  /\ v' = StepOk(t.steps[i - 1], rng', rel')
             [] OTHER -> v' = Generate(t) /\ UNCHANGED <<rng, rel>>
Spec == Init /\ [][Next]_vars
NoViolation == v = {}
=============================================================================
