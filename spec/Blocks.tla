------------------------------- MODULE Blocks -------------------------------
(* Programs, basic blocks, executions, block statistics and selection.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Clause(ok, name) == IF ok THEN {} ELSE {name}
Range(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* ---------------------------------------------------------- basic blocks
\* f: flags of an instruction: 1 may be accelerated, 2 branch, 4 jump target
Allowed(f) == f % 2 = 1
Branch(f)  == (f \div 2) % 2 = 1
Target(f)  == (f \div 4) % 2 = 1
\* a block ends after instruction j
Cut(fl, j) == ~Allowed(fl[j]) \/ ~Allowed(fl[j + 1]) \/ Branch(fl[j]) \/ Target(fl[j + 1])
Starts(fl) == IF fl = <<>> THEN {} ELSE {1} \cup {j + 1 : j \in {j \in 1..(Len(fl) - 1) : Cut(fl, j)}}
BlockFrom(fl, s) == LET T == {t \in Starts(fl) : t > s}
                        e == IF T = {} THEN Len(fl) ELSE (CHOOSE t \in T : \A u \in T : t <= u) - 1
                    IN [j \in 1..(e - s + 1) |-> s + j - 1]

\* ---------------------------------------------------------- executions
\* exec: indices of executed blocks; bl[b] has fields pc, ids, pcs.
\* the execution as a state machine: cur is the current run, runs those finished
RECURSIVE RunsOf(_, _, _)
RunsOf(bl, exec, cur) ==
  IF exec = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE LET b == bl[Head(exec)] IN
       IF Len(b.ids) = 1 THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o RunsOf(bl, Tail(exec), <<>>)
       ELSE RunsOf(bl, Tail(exec), Append(cur, b.pc))
Multiplicity(rs, r) == Cardinality({j \in 1..Len(rs) : rs[j] = r})
\* positions of leftmost non-overlapping occurrences of w in r, from position a
RECURSIVE Occ(_, _, _)
Occ(r, w, a) == IF a + Len(w) - 1 > Len(r) THEN <<>>
                ELSE IF SubSeq(r, a, a + Len(w) - 1) = w THEN <<a>> \o Occ(r, w, a + Len(w))
                ELSE Occ(r, w, a + 1)
CountIn(rs, w) == SumSeq([j \in 1..Len(rs) |-> Len(Occ(rs[j], w, 1))])
Windows(rs, m) == {SubSeq(rs[t[1]], t[2], t[3]) : t \in
                     {t \in UNION {{<<j, a, b>> : a \in 1..Len(rs[j]), b \in 1..Len(rs[j])} : j \in 1..Len(rs)} :
                        t[2] <= t[3] /\ t[3] - t[2] < m}}
BlockAt(bl, pc) == CHOOSE b \in Range(bl) : b.pc = pc
InstrIds(bl, w) == Flatten([j \in 1..Len(w) |-> BlockAt(bl, w[j]).ids])
InstrPcs(bl, w) == Flatten([j \in 1..Len(w) |-> BlockAt(bl, w[j]).pcs])
\* block sequences to report
Reported(c, rs) == {w \in Windows(rs, c.maxbb) : CountIn(rs, w) >= c.cutoff /\ Len(InstrIds(c.blocks, w)) <= c.maxin}

\* ---------------------------------------------------------- selection
\* what is left of a run when the occurrences of w are taken out
Remove(r, w) == LET o == Occ(r, w, 1)
                    piece(j) == LET a == IF j = 0 THEN 1 ELSE o[j] + Len(w)
                                    b == IF j = Len(o) THEN Len(r) ELSE o[j + 1] - 1
                                IN SubSeq(r, a, b)
                IN SelectSeq([j \in 1..(Len(o) + 1) |-> piece(j - 1)], LAMBDA s : s # <<>>)
RemoveAll(rs, w) == Flatten([j \in 1..Len(rs) |-> Remove(rs[j], w)])
StatOf(c, w) == CHOOSE s \in Range(c.stats) : s.pcs = w
\* a selection state: [left, cost, chosen]; candidates that still fit and still run
Candidates(c, cand, s) ==
  {w \in cand : /\ w \notin Range(s.chosen)
                /\ s.cost + StatOf(c, w).cost <= c.budget
                /\ CountIn(s.left, w) > 0}
ValueOf(c, s, w) == CountIn(s.left, w) * StatOf(c, w).value
Best(c, cand, s) == LET A == Candidates(c, cand, s) IN
  {w \in A : \A u \in A : ValueOf(c, s, w) * StatOf(c, u).cost >= ValueOf(c, s, u) * StatOf(c, w).cost}
Select(c, s, w) == [left |-> RemoveAll(s.left, w), cost |-> s.cost + StatOf(c, w).cost, chosen |-> Append(s.chosen, w)]
=============================================================================
