------------------------------- MODULE RowsTrace -------------------------------
(* Filling precompile rows from the original instructions' rows.              *)
(*   orig   : the instruction circuits side by side, calls : rows of them     *)
(*   offs   : first column of each instruction, airs/width : its circuit      *)
(*   keep   : instructions of which rows are recorded (some column survives)  *)
(*   refs   : per call and kept instruction, where its row is read from       *)
(*   map    : per kept instruction, <<original column, precompile column>>    *)
(*   new    : the precompile, over columns 1..ncols (and unread derived ones) *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>

Kept(c) == SelectSeq([i \in 1..Len(c.keep) |-> i], LAMBDA i : c.keep[i])
InstrRow(c, call, i) == SubSeq(c.calls[call], c.offs[i] + 1, c.offs[i] + c.width[c.airs[i]])
\* the recorded rows of one circuit: call by call, in program order
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
Records(c, air) ==
  LET mine == SelectSeq(Kept(c), LAMBDA i : c.airs[i] = air)
  IN Flatten([call \in 1..Len(c.calls) |-> Flatten([j \in 1..Len(mine) |-> InstrRow(c, call, mine[j])])])

\* where the recorded reference says an instruction's cell is
Cell(c, R, call, j, o) == LET q == R[c.refs[call][j].air] n == c.refs[call][j].start + o + 1
                          IN IF n \in 1..Len(q) THEN q[n] ELSE -1
Verdict(c) ==
  LET t == c.toy IN
  IF \E i \in 1..Len(c.calls) : ~Sat(t, c.orig, c.calls[i]) \/ ~MemConsistent(t, c.orig, c.calls[i]) THEN {"TOOL"}
  ELSE IF c.res # "ok" THEN {"build-failed"}
  ELSE LET kept == Kept(c)
           R == TLCEval([a \in Range(c.airs) |-> Records(c, a)])
           shape == /\ Len(c.refs) = Len(c.calls)
                    /\ \A call \in 1..Len(c.refs) : Len(c.refs[call]) = Len(kept)
                    /\ Len(c.map) = Len(kept)
           derived == {c.new.der[i].v : i \in 1..Len(c.new.der)}
           filled == UNION {{c.map[j][m][2] + 1 : m \in 1..Len(c.map[j])} : j \in 1..Len(kept)}
       IN IF ~shape THEN {"shape"}
          ELSE Clause(\A call \in 1..Len(c.calls), j \in 1..Len(kept) :
                        /\ c.refs[call][j].air = c.airs[kept[j]]
                        /\ c.refs[call][j].len = c.width[c.airs[kept[j]]]
                        /\ \A o \in 0..(c.refs[call][j].len - 1) : Cell(c, R, call, j, o) = InstrRow(c, call, kept[j])[o + 1], "wrong-row")
               \cup Clause(1..c.ncols \subseteq filled \cup derived /\ filled \cap derived = {}, "unfilled-column")
               \cup Clause(\A call \in 1..Len(c.calls) :
                     LET base == [x \in 1..c.nv |->
                                    LET src == {<<j, m>> \in (1..Len(kept)) \X (1..60) : m <= Len(c.map[j]) /\ c.map[j][m][2] + 1 = x}
                                    IN IF src = {} THEN 0
                                       ELSE LET w == CHOOSE w \in src : TRUE IN Cell(c, R, call, w[1], c.map[w[1]][w[2]][1])]
                         row == Derive(t, c.new, base)
                     IN /\ Sat(t, c.new, row)
                        /\ Net(t, c.new, row) = Net(t, c.orig, c.calls[call]), "row-rejected")

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \in {{"pending"}, {}}
=============================================================================
