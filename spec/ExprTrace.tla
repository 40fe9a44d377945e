------------------------------- MODULE ExprTrace -------------------------------
(* Expression manipulation as a state machine.  The state is a list of        *)
(* polynomial functions (tables over all assignments); every operation of the *)
(* code has a meaning on functions, and the expression the code returns must  *)
(* denote the function the operation means.  What the code reports about an   *)
(* expression (degree, variables, constant, linear, ...) must be true of it.  *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k,      \* which history
          i,      \* events consumed
          regs,   \* functions denoted by the expressions so far
          v       \* violated clauses of the last event
vars == <<k, i, regs, v>>

Undef == 0 - 1    \* value of an expression with a zero divisor
Inv(x, p) == CHOOSE y \in 1..(p - 1) : (x * y) % p = 1
Bin(o, x, y, p) ==
  IF x = Undef \/ y = Undef THEN Undef ELSE
  CASE o = "+" -> (x + y) % p
    [] o = "-" -> (x - y) % p
    [] o = "*" -> (x * y) % p
    [] o = "/" -> IF y = 0 THEN Undef ELSE (x * Inv(y, p)) % p
RECURSIVE Val(_, _, _)
Val(e, s, p) ==
  CASE e.o = "v" -> s[e.k]
    [] e.o = "c" -> e.k % p
    [] e.o = "~" -> LET x == Val(e.a, s, p) IN IF x = Undef THEN Undef ELSE (0 - x) % p
    [] OTHER     -> Bin(e.o, Val(e.a, s, p), Val(e.b, s, p), p)

(* assignments: known symbols stay within their declared range *)
Asg(c) == {s \in [1..c.n -> 0..(c.p - 1)] : \A x \in 1..c.n : s[x] \in Range(c.allow[x])}
Table(c, e) == TLCEval([s \in Asg(c) |-> Val(e, s, c.p)])
Unk(c) == 1..c.unk
RECURSIVE DegIn(_, _)
DegIn(e, V) ==
  CASE e.o = "v" -> IF e.k \in V THEN 1 ELSE 0
    [] e.o = "c" -> 0
    [] e.o = "~" -> DegIn(e.a, V)
    [] e.o = "*" -> DegIn(e.a, V) + DegIn(e.b, V)
    [] OTHER     -> LET x == DegIn(e.a, V) y == DegIn(e.b, V) IN IF x > y THEN x ELSE y
RECURSIVE SumV(_, _, _)
SumV(es, s, p) == IF es = <<>> THEN 0 ELSE Bin("+", Val(Head(es), s, p), SumV(Tail(es), s, p), p)

Put(c, t, x, s, y) == IF y = Undef \/ y \notin Range(c.allow[x]) THEN Undef ELSE t[[s EXCEPT ![x] = y]]
RECURSIVE Multi(_, _, _)
Multi(c, t, ks) == IF ks = <<>> THEN t
                   ELSE Multi(c, TLCEval([s \in Asg(c) |-> Put(c, t, ks[1][1], s, Val(ks[1][2], s, c.p))]), Tail(ks))
RECURSIVE SumT(_, _, _)
SumT(xs, s, p) == IF xs = <<>> THEN 0 ELSE Bin("+", regs[Head(xs)][s], SumT(Tail(xs), s, p), p)
RECURSIVE SumP(_, _, _)
SumP(xs, s, p) == IF xs = <<>> THEN 0
                  ELSE Bin("+", Bin("*", xs[1][4], Bin("*", regs[xs[1][1]][s], (s[xs[1][2]] + xs[1][3]) % p, p), p), SumP(Tail(xs), s, p), p)

(* What the operation means on functions. *)
Meaning(c, e) ==
  LET p == c.p  A == Asg(c)  r(j) == regs[j] IN
  CASE e.op = "var"   -> [s \in A |-> s[e.v]]
    [] e.op = "const" -> [s \in A |-> Val(e.k, s, p)]
    [] e.op = "add"   -> [s \in A |-> Bin("+", r(e.a)[s], r(e.b)[s], p)]
    [] e.op = "sub"   -> [s \in A |-> Bin("-", r(e.a)[s], r(e.b)[s], p)]
    [] e.op = "mul"   -> [s \in A |-> Bin("*", r(e.a)[s], r(e.b)[s], p)]
    [] e.op = "div"   -> [s \in A |-> Bin("/", r(e.a)[s], r(e.b)[s], p)]
    [] e.op = "inv"   -> [s \in A |-> Bin("/", 1, r(e.a)[s], p)]
    [] e.op = "neg"   -> [s \in A |-> Bin("-", 0, r(e.a)[s], p)]
    [] e.op = "mulk"  -> [s \in A |-> Bin("*", r(e.a)[s], Val(e.k, s, p), p)]
    [] e.op = "bool"  -> [s \in A |-> Bin("*", r(e.a)[s], Bin("-", r(e.a)[s], 1, p), p)]
    [] e.op = "zero"  -> [s \in A |-> r(e.a)[[x \in 1..c.n |-> 0]]]
    [] e.op = "sum"   -> [s \in A |-> SumT(e.xs, s, p)]
    [] e.op = "sumprod" -> [s \in A |-> SumP(e.xs, s, p)]
    [] e.op = "substk" -> [s \in A |-> Put(c, r(e.a), e.v, s, Val(e.k, s, p))]
    [] e.op = "subst" -> [s \in A |-> Put(c, r(e.a), e.v, s, r(e.b)[s])]
    [] e.op = "multi" -> Multi(c, r(e.a), e.ks)
    [] e.op = "rename" -> [s \in A |-> r(e.a)[[x \in 1..c.n |-> s[e.perm[x]]]]]
    [] OTHER          -> r(e.a)                                         \* "id"

Single(op) == op \notin {"split", "extract", "factors", "eval"}
SameWhereDefined(t, u) == \A s \in DOMAIN t : t[s] # Undef => t[s] = u[s]
RECURSIVE ProdT(_, _, _)
ProdT(ts, s, p) == IF ts = <<>> THEN 1 ELSE Bin("*", Head(ts)[s], ProdT(Tail(ts), s, p), p)
Rel(c, e, ts) ==
  LET p == c.p  A == Asg(c)  t == regs[e.a] IN
  CASE e.op = "split"   -> Clause(\A s \in A : t[s] # Undef => t[s] = Bin("+", ts[1][s], ts[2][s], p), "split")
    [] e.op = "extract" -> Clause(/\ \A s \in A : t[s] # Undef => t[s] = Bin("+", Bin("*", Val(e.k, s, p), s[e.v], p), ts[1][s], p)
                                  /\ e.v \notin Vars(e.k) \cup Vars(e.res[1].e), "extract")
    [] e.op = "factors" -> Clause(\E q \in 1..(p - 1) : \A s \in A : t[s] = Bin("*", q, ProdT(ts, s, p), p), "factors")
    [] e.op = "eval"    -> Clause(\A j \in 1..Len(e.vals) : e.vals[j] = t[e.row], "eval")

Has(o, f) == f \in DOMAIN o
(* The reports about an expression that denotes t. *)
Reports(c, o, t) ==
  LET p == c.p  A == {s \in Asg(c) : t[s] # Undef} IN
     (IF Has(o, "deg") THEN Clause(o.deg = DegIn(o.e, Unk(c)), "degree")
                       \cup Clause(\A x \in Unk(c) : o.degs[x] = DegIn(o.e, {x}), "degree of variable")
                       \cup Clause(Range(o.vars) = Vars(o.e) \cap Unk(c), "variables")
                       \cup Clause(o.affine => \A x \in Range(o.vars) : o.lin[x].o # "c" \/ o.lin[x].k # 0, "vanished variable")
                       \cup Clause(o.affine => \A s \in A : t[s] = Bin("+", Val(o.const, s, p),
                                     SumV([x \in 1..c.n |-> [o |-> "*", a |-> o.lin[x], b |-> [o |-> "v", k |-> x]]], s, p), p), "affine")
                       \cup Clause(o.simple > 0 => \A s \in A : t[s] = s[o.simple], "simple variable")
                       \cup Clause(\A s \in A : SumV(o.parts, s, p) = t[s], "summands")
      ELSE {})
     \cup (IF Has(o, "num") THEN Clause(o.num >= 0 => \A s \in A : t[s] = o.num, "number") ELSE {})
     \cup (IF Has(o, "known") THEN Clause(Vars(o.known) \cap Unk(c) = {} /\ \A s \in A : t[s] = Val(o.known, s, p), "known") ELSE {})
     \cup (IF Has(o, "prod") THEN Clause(\A s \in A : t[s] = Bin("*", Val(o.prod[1], s, p), Val(o.prod[2], s, p), p), "product") ELSE {})
     \cup (IF Has(o, "adeg") THEN Clause(o.adeg = Degree(o.e), "degree") ELSE {})
     \cup (IF Has(o, "allvars") THEN Clause(Range(o.allvars) = Vars(o.e), "variables") ELSE {})
     \cup (IF Has(o, "rc") THEN
             Clause(\A s \in A : LET x == t[s] r == o.rc IN
                      /\ IF r[2] <= r[3] THEN r[2] <= x /\ x <= r[3] ELSE r[2] <= x \/ x <= r[3]
                      /\ (x & r[1]) = x, "range")
             \cup Clause(/\ o.zero => \A s \in A : t[s] = 0
                         /\ o.one => \A s \in A : t[s] = 1
                         /\ o.mone => \A s \in A : t[s] = p - 1
                         /\ o.nonzero => \A s \in A : t[s] # 0, "known value")
           ELSE {})

Init == k \in 1..Len(Trace) /\ i = 0 /\ regs = <<>> /\ v = {}
Next == /\ i < Len(Trace[k].ev)
        /\ v = {}
        /\ i' = i + 1 /\ k' = k
        /\ LET c == Trace[k]  e == c.ev[i + 1] IN
           IF e.op = "crash" THEN v' = {"crash"} /\ regs' = regs ELSE
           LET rec == [j \in 1..Len(e.res) |-> Table(c, e.res[j].e)]
               t == IF Single(e.op) THEN TLCEval(Meaning(c, e)) ELSE <<>>
               ts == IF Single(e.op) THEN [j \in 1..Len(e.res) |-> t] ELSE rec
           IN /\ regs' = regs \o ts
              /\ v' = (IF Single(e.op)
                       THEN Clause(\A j \in 1..Len(e.res) : SameWhereDefined(t, rec[j]), "value")
                            \cup (IF Has(e, "alts") THEN Clause(\A j \in 1..Len(e.alts) : SameWhereDefined(t, Table(c, e.alts[j])), "converted value") ELSE {})
                       ELSE Rel(c, e, rec))
                      \cup UNION {Reports(c, e.res[j], ts[j]) : j \in 1..Len(e.res)}
Spec == Init /\ [][Next]_vars
NoViolation == v = {}
=============================================================================
