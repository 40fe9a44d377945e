----------------------------- MODULE LiteralsTrace -----------------------------
(* What can be checked at run time about a block, and what is assumed of it.  *)
(*   circuits, airs, offs : instruction circuits, the one of each instruction,*)
(*                          first column of each instruction                  *)
(*   rows   : honest executions: the row and the memory before the block;     *)
(*            the first `train` of them are the observed ones                 *)
(*   lits   : <<column, step, space, address, limb>> claimed checkable        *)
(*   eqs    : equalities over such columns; conds : the conditions on         *)
(*            execution states made from them                                 *)
(*   assumed: constraints added from observations (all / only checkable)      *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>

\* instruction i's circuit on its part of the row
Part(c, row, i) == LET w == IF i < c.n THEN c.offs[i + 1] ELSE c.width IN SubSeq(row, c.offs[i] + 1, w)
\* memory: <<space, address>> -> limbs and the time of the last access
Start(c, R) == [q \in ({1} \X (0..(Len(R.regs) - 1))) \cup ({2} \X (0..(Len(R.mem) - 1))) |->
                  IF q[1] = 1 THEN R.regs[q[2] + 1] ELSE R.mem[q[2] + 1]]
Fail == [ok |-> FALSE]
\* one instruction: its memory messages in order; a read gets what is there
RECURSIVE Accesses(_, _, _, _, _)
Accesses(c, sys, s, j, M) ==
  IF j > Len(sys.bus) THEN [ok |-> TRUE, m |-> M]
  ELSE LET b == sys.bus[j] IN
       IF b.id # MemBus THEN Accesses(c, sys, s, j + 1, M)
       ELSE LET a == EvAll(b.args, s, c.toy.p)
                q == <<a[1], a[2]>>
                data == SubSeq(a, 3, Len(a))
                m == Ev(b.mult, s, c.toy.p)
            IN IF m = 0 THEN Accesses(c, sys, s, j + 1, M)
               ELSE IF q \notin DOMAIN M THEN Fail
               ELSE IF m = 1 THEN Accesses(c, sys, s, j + 1, [M EXCEPT ![q] = data])
               ELSE IF M[q] = data THEN Accesses(c, sys, s, j + 1, M) ELSE Fail
RECURSIVE States(_, _, _, _)
States(c, R, i, acc) ==
  IF i > c.n THEN [ok |-> TRUE, st |-> acc]
  ELSE LET sys == c.circuits[c.airs[i]]
           s == Part(c, R.row, i)
           nxt == Accesses(c, sys, s, 1, acc[i])
       IN IF ~Sat(c.toy, sys, s) \/ ~nxt.ok THEN Fail ELSE States(c, R, i + 1, Append(acc, nxt.m))

LimbAt(st, l) == IF l[2] + 1 \in 1..Len(st) /\ <<l[3], l[4]>> \in DOMAIN st[l[2] + 1] /\ l[5] \in 1..(Len(st[l[2] + 1][<<l[3], l[4]>>]) - 1)
                 THEN st[l[2] + 1][<<l[3], l[4]>>][l[5]] ELSE -1
EqSide(R, e) == IF e[1] = 0 THEN e[2] ELSE R.row[e[2]]
CondSide(st, e) == IF e[1] = 0 THEN e[2] ELSE IF e[1] = 1 THEN LimbAt(st, <<0, e[2], e[3], e[4], e[5]>>) ELSE -2

Verdict(c) ==
  IF c.res # "ok" THEN {"failed"}
  ELSE LET S == TLCEval([i \in 1..Len(c.rows) |-> States(c, c.rows[i], 1, <<Start(c, c.rows[i])>>)])
           checkable == {c.lits[j][1] : j \in 1..Len(c.lits)}
       IN IF \E i \in 1..Len(S) : ~S[i].ok THEN {"TOOL"}
          ELSE Clause(\A i \in 1..Len(S), j \in 1..Len(c.lits) :
                        c.lits[j][1] \in 1..c.width /\ LimbAt(S[i].st, c.lits[j]) = c.rows[i].row[c.lits[j][1]], "wrong-limb")
               \cup Clause(/\ Len(c.conds) = Len(c.eqs)
                           /\ \A i \in 1..Len(S), j \in 1..Len(c.eqs) :
                                (EqSide(c.rows[i], c.eqs[j][1]) = EqSide(c.rows[i], c.eqs[j][2]))
                                <=> (CondSide(S[i].st, c.conds[j][1]) = CondSide(S[i].st, c.conds[j][2])), "wrong-condition")
               \cup Clause(\A m \in 1..2 : c.assumed[m].res = "ok", "not-built")
               \cup Clause(\A m \in 1..2 : \A x \in 1..Len(c.assumed[m].cons) :
                             \A i \in 1..c.train : Ev(c.assumed[m].cons[x], c.rows[i].row, c.toy.p) = 0, "assumption-never-held")
               \cup Clause(VarsAll(c.assumed[2].cons) \subseteq checkable, "unchecked-assumption")

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \in {{"pending"}, {}}
=============================================================================
