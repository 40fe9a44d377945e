--------------------------- MODULE ConstraintSystem ---------------------------
(* Semantics of powdr constraint systems (algebraic constraints, lookups,     *)
(* stateful bus messages, derived columns) over a small prime field, with the *)
(* tables of a toy VM.                                                        *)
(*   t    : [p, maxbits, t1, t2, w]       field and table widths              *)
(*   sys  : [cons, bus, der]              the system                          *)
(*   s    : sequence of field values      an assignment (row)                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

ExecBus == 0  MemBus == 1  PcBus == 2  RangeBus == 3  TupleBus == 4  BitwiseBus == 5
Stateful(id) == id \in {ExecBus, MemBus}
Range(q) == {q[i] : i \in 1..Len(q)}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Ev(_, _, _)
Ev(e, s, p) ==
  CASE e.o = "v" -> s[e.k]
    [] e.o = "c" -> e.k % p
    [] e.o = "+" -> (Ev(e.a, s, p) + Ev(e.b, s, p)) % p
    [] e.o = "*" -> (Ev(e.a, s, p) * Ev(e.b, s, p)) % p
    [] e.o = "-" -> (Ev(e.a, s, p) - Ev(e.b, s, p)) % p
    [] OTHER     -> (0 - Ev(e.a, s, p)) % p
EvAll(es, s, p) == [i \in 1..Len(es) |-> Ev(es[i], s, p)]

RECURSIVE Vars(_)
Vars(e) ==
  CASE e.o = "v" -> {e.k}
    [] e.o = "c" -> {}
    [] e.o = "~" -> Vars(e.a)
    [] OTHER     -> Vars(e.a) \cup Vars(e.b)
VarsAll(es) == UNION {Vars(es[i]) : i \in 1..Len(es)}
BusVars(b) == Vars(b.mult) \cup VarsAll(b.args)
SysVars(sys) == VarsAll(sys.cons) \cup UNION {BusVars(sys.bus[i]) : i \in 1..Len(sys.bus)}

(* Degree as the sum of degrees over products, the maximum over sums.        *)
RECURSIVE Degree(_)
Degree(e) ==
  CASE e.o = "v" -> 1
    [] e.o = "c" -> 0
    [] e.o = "~" -> Degree(e.a)
    [] e.o = "*" -> Degree(e.a) + Degree(e.b)
    [] OTHER     -> LET x == Degree(e.a) y == Degree(e.b) IN IF x > y THEN x ELSE y

(* Lookup tables *)
Accepts(t, id, a) ==
  CASE id = RangeBus   -> a[2] <= t.maxbits /\ a[1] < 2 ^ a[2]
    [] id = TupleBus   -> a[1] < t.t1 /\ a[2] < t.t2
    [] id = BitwiseBus -> /\ a[1] < 2 ^ t.w
                          /\ a[2] < 2 ^ t.w
                          /\ CASE a[4] = 0 -> a[3] = 0
                               [] a[4] = 1 -> a[3] = (a[1] ^^ a[2])
                               [] OTHER    -> FALSE
    [] OTHER -> TRUE
BusOk(t, b, s) == Stateful(b.id) \/ Ev(b.mult, s, t.p) = 0 \/ Accepts(t, b.id, EvAll(b.args, s, t.p))
Sat(t, sys, s) ==
  /\ \A i \in 1..Len(sys.cons) : Ev(sys.cons[i], s, t.p) = 0
  /\ \A i \in 1..Len(sys.bus) : BusOk(t, sys.bus[i], s)

(* All solutions, by extending partial assignments in the given variable     *)
(* order; a constraint is applied as soon as its last variable is assigned.  *)
RECURSIVE Extend(_, _, _, _, _)
Extend(t, order, due, i, S) ==
  IF i > Len(order) \/ S = {} THEN S
  ELSE Extend(t, order, due, i + 1,
         {s \in {[r EXCEPT ![order[i]] = x] : r \in S, x \in 0..(t.p - 1)} :
            /\ \A c \in due[i + 1].cons : Ev(c, s, t.p) = 0
            /\ \A b \in due[i + 1].bus : BusOk(t, b, s)})
Solutions(t, sys, order, nv) ==
  LET pos(V) == MaxOf({0} \cup {i \in 1..Len(order) : order[i] \in V})
      due == TLCEval([i \in 1..(Len(order) + 1) |->
               [cons |-> {sys.cons[c] : c \in {c \in 1..Len(sys.cons) : pos(Vars(sys.cons[c])) = i - 1}},
                bus |-> {sys.bus[b] : b \in {b \in 1..Len(sys.bus) : ~Stateful(sys.bus[b].id) /\ pos(BusVars(sys.bus[b])) = i - 1}}]])
      zero == [i \in 1..nv |-> 0]
  IN Extend(t, order, due, 1, {s \in {zero} : /\ \A c \in due[1].cons : Ev(c, s, t.p) = 0
                                              /\ \A b \in due[1].bus : BusOk(t, b, s)})
\* the order must enumerate every variable of the system exactly once
OrderOk(sys, order) == SysVars(sys) \subseteq Range(order) /\ Cardinality(Range(order)) = Len(order)

(* The observable effect of a row: net messages on the stateful buses.       *)
Messages(t, sys, s) ==
  LET B == {i \in 1..Len(sys.bus) : Stateful(sys.bus[i].id)}
  IN [i \in B |-> [id |-> sys.bus[i].id, m |-> Ev(sys.bus[i].mult, s, t.p), a |-> EvAll(sys.bus[i].args, s, t.p)]]
RECURSIVE SumM(_, _)
SumM(M, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN M[i].m + SumM(M, I \ {i})
Net(t, sys, s) ==
  LET M == Messages(t, sys, s)
      keys == {<<M[i].id, M[i].a>> : i \in DOMAIN M}
      total(q) == SumM(M, {i \in DOMAIN M : M[i].id = q[1] /\ M[i].a = q[2]}) % t.p
  IN {<<q, total(q)>> : q \in {q \in keys : total(q) # 0}}

(* Rows that can be part of a consistent execution: a memory receive that    *)
(* follows a send at the same address (no other access in between) reads     *)
(* what was sent; the execution state is handed from one step to the next.   *)
MemConsistent(t, sys, s) ==
  LET M == Messages(t, sys, s)
      A == {i \in DOMAIN M : M[i].m # 0}
      same(i, j) == M[i].id = M[j].id /\ (M[i].id = MemBus => (M[i].a[1] = M[j].a[1] /\ M[i].a[2] = M[j].a[2]))
  IN \A j \in A : M[j].m # 1 =>
       LET E == {i \in A : i < j /\ same(i, j)}
       IN E = {} \/ LET i == MaxOf(E) IN M[i].m = 1 => M[i].a = M[j].a

(* Witness generation for derived columns, in order.                         *)
RECURSIVE DeriveFrom(_, _, _, _)
DeriveFrom(t, der, i, s) ==
  IF i > Len(der) THEN s
  ELSE LET d == der[i]
           val == IF d.m = "const" THEN d.k % t.p
                  ELSE LET n == Ev(d.a, s, t.p) q == Ev(d.b, s, t.p)
                       IN IF q = 0 THEN 0 ELSE CHOOSE x \in 0..(t.p - 1) : (x * q) % t.p = n
       IN DeriveFrom(t, der, i + 1, [s EXCEPT ![d.v] = val])
Derive(t, sys, s) == DeriveFrom(t, sys.der, 1, s)

Clause(ok, name) == IF ok THEN {} ELSE {name}
=============================================================================
