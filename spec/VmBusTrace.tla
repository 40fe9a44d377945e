------------------------------ MODULE VmBusTrace ------------------------------
(* The lookup tables and the memory of the VM at real size, and what may be    *)
(* concluded from an interaction with them.  A fact <<mask, min, max>> allows  *)
(* the values in the (possibly wrapping) interval that fit the mask.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>

Byte == 0..255
MaxBits == 25
Pow == [b \in 0..25 |-> 2 ^ b]
Allows(f, x) ==
  /\ IF f[2] <= f[3] THEN f[2] <= x /\ x <= f[3] ELSE f[2] <= x \/ x <= f[3]
  /\ (x & f[1]) = x
Values(f, S) == {x \in S : Allows(f, x)}

(* table membership *)
InTable(b, a, sizes) ==
  CASE b = "bitwise" -> /\ a[1] \in Byte /\ a[2] \in Byte
                        /\ \/ a[4] = 0 /\ a[3] = 0
                           \/ a[4] = 1 /\ a[3] = (a[1] ^^ a[2])
    [] b = "var"     -> a[2] <= MaxBits /\ a[1] < Pow[a[2]]
    [] b = "tuple"   -> a[1] < sizes[1] /\ a[2] < sizes[2]
    [] OTHER         -> TRUE

Clause(ok, name) == IF ok THEN {} ELSE {name}
Set(q) == {q[i] : i \in 1..Len(q)}

(*--------------------------------------------------------------- refinement *)
(* Field by field: every table row compatible with the facts before must be    *)
(* allowed after.  Active: the multiplicity is certainly not zero.             *)
Keeps(e, i, S) == \A x \in S : Allows(e.before[i], x) => Allows(e.after[i], x)
KeepsAll(e, S) == \A i \in 1..Len(e.before) : Keeps(e, i, S)
NoRow(e) ==             \* contradictory facts: nothing to keep
  \E i \in 1..Len(e.before) : Values(e.before[i], Set(e.pts) \cup Byte) = {}
Handle(e) ==
  LET pts == Set(e.pts)
      inactive == Allows(e.m, 0)
      receive == e.m[2] = e.p - 1 /\ e.m[3] = e.p - 1
      bytesof(i) == Values(e.before[i], Byte)
      data == 3..(Len(e.before) - 1)
      space == e.before[1]
      known(f, x) == Values(f, pts \cup Byte) = {x}
  IN IF ~e.ok THEN Clause(\/ NoRow(e)
                            \/ (e.b = "bitwise" /\ (Values(e.before[4], {0, 1}) = {} \/ bytesof(1) = {} \/ bytesof(2) = {})), "crash on satisfiable facts")
     ELSE
     Clause(Len(e.after) = Len(e.before), "number of fields")
     \cup Clause(\A x \in pts : Allows(e.m, x) => Allows(e.ma, x), "multiplicity")
     \cup
     (IF inactive THEN Clause(KeepsAll(e, pts \cup Byte), "inactive interaction restricts its fields")
      ELSE
      CASE e.b = "bitwise" ->
             LET X == bytesof(1)  Y == bytesof(2)
                 ops == Values(e.before[4], {0, 1})
             IN \* rows (x, y, 0, 0)
                Clause((0 \in ops /\ Allows(e.before[3], 0) /\ X # {} /\ Y # {}) =>
                          /\ Keeps(e, 1, X) /\ Keeps(e, 2, Y) /\ Allows(e.after[3], 0) /\ Allows(e.after[4], 0), "bitwise range rows")
                \* rows (x, y, x ^ y, 1)
                \cup Clause(1 \in ops =>
                       \A x \in X : \A y \in Y :
                          LET z == x ^^ y IN
                          Allows(e.before[3], z) => /\ Allows(e.after[3], z) /\ Allows(e.after[1], x)
                                                    /\ Allows(e.after[2], y) /\ Allows(e.after[4], 1), "bitwise xor rows")
        [] e.b = "var" ->
             Clause(\A b \in Values(e.before[2], 0..MaxBits) :
                      \A x \in Values(e.before[1], pts \cup {0, Pow[b] - 1}) :
                        x < Pow[b] => Allows(e.after[1], x) /\ Allows(e.after[2], b), "variable range rows")
        [] e.b = "tuple" ->
             LET X == Values(e.before[1], {x \in pts \cup {0, 1, e.sizes[1] - 1} : x < e.sizes[1]})
                 Y == Values(e.before[2], {x \in pts \cup {0, 1, e.sizes[2] - 1} : x < e.sizes[2]})
             IN Clause((X # {} /\ Y # {}) => (Keeps(e, 1, X) /\ Keeps(e, 2, Y)), "tuple range rows")
        [] e.b = "mem" ->
             LET kept == Keeps(e, 1, pts \cup Byte) /\ Keeps(e, 2, pts \cup Byte) /\ Keeps(e, Len(e.before), pts \cup Byte)
                 bytes == \A i \in data : Keeps(e, i, Byte)
                 zero == \A i \in data : Keeps(e, i, {0})
                 possible(D) == \A i \in data : Values(e.before[i], D) # {}
             IN IF ~receive \/ ~(\E a \in {1, 2} : known(space, a)) THEN Clause(KeepsAll(e, pts \cup Byte), "memory: unfounded restriction")
                ELSE IF known(space, 1) /\ known(e.before[2], 0) THEN Clause(kept /\ zero, "memory: zero register")
                ELSE Clause(kept /\ bytes, "memory: received bytes")
        [] OTHER -> Clause(KeepsAll(e, pts \cup Byte), "no table"))

(*--------------------------------------------------------------- exactness  *)
AddMod(a, b, p) == IF a >= p - b THEN a - (p - b) ELSE a + b
RECURSIVE MulMod(_, _, _)          \* by doubling, without overflow
MulMod(a, n, p) ==
  IF n = 0 THEN 0
  ELSE LET h == MulMod(a, n \div 2, p)  d == AddMod(h, h, p)
       IN IF n % 2 = 0 THEN d ELSE AddMod(d, a, p)
Times(a, c, p) == IF c = 1 THEN a ELSE IF c = p - 1 THEN (IF a = 0 THEN 0 ELSE p - a) ELSE MulMod(a, c, p)
RECURSIVE Sum(_, _, _, _)
Sum(c, i, s, p) == IF i > Len(c) THEN 0 ELSE AddMod(Times(s[c[i][1]], c[i][2], p), Sum(c, i + 1, s, p), p)
Val(x, s, p) == AddMod(x.k, Sum(x.c, 1, s, p), p)
Accepts(b, s, e) ==
  LET a == [i \in 1..Len(b.a) |-> Val(b.a[i], s, e.p)]
  IN Val(b.m, s, e.p) = 0 \/ InTable(b.b, a, e.sizes)
AcceptsAll(bs, s, e) == \A i \in 1..Len(bs) : Accepts(bs[i], s, e)
Checks(rs, s, e) == \A i \in 1..Len(rs) : Allows(rs[i].f, Val(rs[i].e, s, e.p))
Linear(x) == x.lin
LinearBus(b) == Linear(b.m) /\ \A i \in 1..Len(b.a) : Linear(b.a[i])
Rows(e) == {s \in [1..Len(e.vals) -> UNION {Set(e.vals[i]) : i \in 1..Len(e.vals)}] : \A i \in 1..Len(e.vals) : s[i] \in Set(e.vals[i])}
Tuples(e) ==
  CASE Len(e.vals) = 1 -> {<<a>> : a \in Set(e.vals[1])}
    [] Len(e.vals) = 2 -> {<<a, b>> : a \in Set(e.vals[1]), b \in Set(e.vals[2])}
    [] OTHER           -> {<<a, b, c>> : a \in Set(e.vals[1]), b \in Set(e.vals[2]), c \in Set(e.vals[3])}

Pure(e) ==
  IF ~e.some THEN {}
  ELSE Clause(\A s \in Tuples(e) :
         LET a == [i \in 1..Len(e.i.a) |-> Val(e.i.a[i], s, e.p)]
         IN InTable(e.i.b, a, e.sizes) = Checks(e.out, s, e), "range checks differ from the lookup")
Batch(e) ==
  IF ~e.some THEN {}
  ELSE Clause(\A i \in 1..Len(e.out) : e.out[i].m = [c |-> <<>>, k |-> 1, lin |-> TRUE], "conditional range check")
       \cup Clause(\A s \in Tuples(e) : Checks(e.in, s, e) = AcceptsAll(e.out, s, e), "batched lookups differ from the range checks")
Reencode(e) ==
  IF ~e.ok THEN Clause(\A s \in Tuples(e) : ~AcceptsAll(e.in, s, e), "crash on satisfiable range checks")
  ELSE Clause(\A s \in Tuples(e) : AcceptsAll(e.in, s, e) = (~e.never /\ AcceptsAll(e.out, s, e)), "re-encoded range checks differ")

(*--------------------------------------------------------------- memory     *)
Memory(e) ==
  LET a == e.i.a  n == Len(a)  o == e.o
      conv(op) == /\ o.r = op
                  /\ o.addr = SubSeq(a, 1, 2)
                  /\ o.data = SubSeq(a, 3, n - 1)
                  /\ o.ts = <<a[n]>>
  IN Clause(e.stateful = (e.i.b \in {"exec", "mem"}), "statefulness")
     \cup Clause(IF e.i.b # "mem" THEN o.r = "other"
                 ELSE CASE e.i.m.k = 1 -> conv("set")
                        [] e.i.m.k = e.p - 1 -> conv("get")
                        [] OTHER -> o.r = "unknown", "memory access")

Verdict(e) ==
  CASE e.kind = "handle"   -> Handle(e)
    [] e.kind = "pure"     -> Pure(e)
    [] e.kind = "batch"    -> Batch(e)
    [] e.kind = "reencode" -> Reencode(e)
    [] OTHER               -> Memory(e)

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \subseteq {"pending"}
=============================================================================
