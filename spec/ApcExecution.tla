---------------------------- MODULE ApcExecution ----------------------------
(* Execution-time meaning of precompile assumptions and of precompile calls. *)
(* A state is <<pc, register 0, register 1>>; a window h is a sequence of    *)
(* states, h[j+1] being the state at step j.  Literals: <<0,n,_,_>> number,  *)
(* <<1,step,_,_>> program counter, <<2,step,reg,limb>> register limb (2 bit).*)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Steps(c) == {c[j][2] : j \in {j \in 1..2 : c[j][1] # 0}}
\* first step at which all values of the assumption are available
Ready(c) == Max0(Steps(c))
Pow4(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 4 ELSE 16
LitVal(l, h) == CASE l[1] = 0 -> l[2]
                  [] l[1] = 1 -> h[l[2] + 1][1]
                  [] l[1] = 2 -> (h[l[2] + 1][l[3] + 2] \div Pow4(l[4])) % 4
Holds(c, h) == LitVal(c[1], h) = LitVal(c[2], h)
\* no assumption that can be evaluated on the window so far is false
Alive(cons, h) == \A j \in 1..Len(cons) : Ready(cons[j]) < Len(h) => Holds(cons[j], h)

\* ---- candidates: [apc, from, start, hist, done, to, end]
Overlap(a, b) == a.start < b.end /\ b.start < a.end
\* x, y: positions in the list; higher priority, then longer, then earlier
Better(apcs, cs, x, y) ==
  LET p == apcs[cs[x].apc].prio  q == apcs[cs[y].apc].prio
      l == cs[x].end - cs[x].start  m == cs[y].end - cs[y].start
  IN p > q \/ (p = q /\ (l > m \/ (l = m /\ x < y)))
Undecided(cs) == \E x \in 1..Len(cs) : ~cs[x].done
=============================================================================
