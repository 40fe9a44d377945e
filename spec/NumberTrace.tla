------------------------------ MODULE NumberTrace ------------------------------
(* Prime-field arithmetic on canonical representatives, for the supported     *)
(* fields at their real size.  Recorded operations of the code carry the      *)
(* quotient as a certificate, so that each equation is checked exactly.       *)
EXTENDS BigNat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, v
vars == <<k, v>>

Prime == [babybear   |-> <<1, 0, 120>>,                                \* 15 * 2^27 + 1
          koalabear  |-> <<1, 0, 127>>,                                \* 2^31 - 2^24 + 1
          mersenne31 |-> <<4095, 4095, 127>>,                          \* 2^31 - 1
          goldilocks |-> <<1, 0, 3840, 4095, 4095, 15>>,               \* 2^64 - 2^32 + 1
          bn254      |-> <<1, 0, 1008, 3929, 993, 2324, 2416, 1947, 2120, 830, 3368, 1413, 385, 2920, 69, 2949, 41, 794, 737, 1255, 100, 3>>]
Width == [babybear |-> 32, koalabear |-> 32, mersenne31 |-> 32, goldilocks |-> 64, bn254 |-> 256]   \* of the integer type

Clause(ok, name) == IF ok THEN {} ELSE {name}
(* l = q P + r with r canonical *)
Div(l, q, P, r) == Less(r, P) /\ l = Add(Mul(q, P), r)

RECURSIVE Chain(_, _, _, _, _)     \* square-and-multiply from bit n down
Chain(e, P, n, j, acc) ==
  IF n < 0 THEN acc
  ELSE LET s == e.chain[j] IN
       IF ~Div(Mul(acc, acc), s[1], P, s[2]) THEN <<0>>     \* not a number: cannot be a result
       ELSE IF Bit(e.e, n) = 0 THEN Chain(e, P, n - 1, j + 1, s[2])
       ELSE LET m == e.chain[j + 1] IN
            IF ~Div(Mul(s[2], e.a), m[1], P, m[2]) THEN <<0>> ELSE Chain(e, P, n - 1, j + 2, m[2])

Opt(o, ok(_), mayFail) == IF o = <<>> THEN mayFail ELSE ok(o[1])

Verdict(e) ==
  LET P == Prime[e.f]  W == Width[e.f]  M == Pow2(W) IN
  CASE e.op = "add" -> Clause(Div(Add(e.a, e.b), e.q, P, e.r), "add")
    [] e.op = "mul" -> Clause(Div(Mul(e.a, e.b), e.q, P, e.r), "mul")
    [] e.op = "sub" -> Clause(Less(e.r, P) /\ Add(e.b, e.r) = Add(Mul(e.q, P), e.a), "sub")
    [] e.op = "div" -> Clause(Less(e.r, P) /\ Mul(e.r, e.b) = Add(Mul(e.q, P), e.a), "div")
    [] e.op = "neg" -> Clause(Less(e.r, P) /\ Add(e.a, e.r) = Mul(e.q, P), "neg")
    [] e.op = "pow" -> Clause(e.r = Chain(e, P, NumBits(e.e) - 1, 1, One), "pow")
    [] e.op = "divzero" -> Clause(e.r = <<>>, "division by zero has a value")
    [] e.op = "cmp" -> Clause(e.lt = Less(e.a, e.b) /\ e.gt = Less(e.b, e.a) /\ e.eq = (e.a = e.b) /\ e.ilt = e.lt, "comparison")
    [] e.op = "same" -> Clause(IF e.neg THEN Less(e.r, P) /\ Add(e.a, e.r) = Mul(e.q, P) ELSE Div(e.a, e.q, P, e.r), e.what)
    [] e.op = "rejected" -> Clause(~Less(e.a, P), e.what)              \* only integers outside (-P, P) may be refused
    [] e.op = "checked" -> Clause(IF Less(e.a, P) THEN e.r = <<e.a>> ELSE e.r = <<>>, "checked conversion")
    [] e.op = "signedrange" -> Clause(Less(Mul(Two, e.a), P), "signed")
    [] e.op = "unary" ->
         Clause(e.int = e.a /\ e.arb = e.a, "to integer")
         \cup Clause(e.lower = Less(Mul(Two, e.a), P), "lower half")
         \cup Clause(e.isz = (e.a = <<>>) /\ e.iso = (e.a = One) /\ e.iisz = e.isz /\ e.iiso = e.iso, "is zero or one")
         \cup Clause(e.nb = NumBits(e.a), "number of bits")
         \cup Clause(e.u64 = (IF NumBits(e.a) <= 64 THEN <<e.a>> ELSE <<>>), "to u64")
         \cup Clause(e.u32 = (IF NumBits(e.a) <= 32 THEN <<e.a>> ELSE <<>>), "to u32")
         \cup Clause(e.deg = (IF NumBits(e.a) <= 64 THEN <<e.a>> ELSE <<>>), "to degree")
         \cup Clause(FromBytes(e.bytes) = e.a, "to bytes")
    [] e.op = "bits" ->
         Clause(e.and = AndN(e.a, e.b) /\ e.anda = e.and, "and")
         \cup Clause(e.or = OrN(e.a, e.b) /\ e.ora = e.or, "or")
         \cup Clause(e.xor = XorN(e.a, e.b), "xor")
         \cup Clause(Add(Add(e.a, e.not), One) = M, "not")
         \cup Clause(Less(e.rem, Pow2(e.s)) /\ e.a = Add(Mul(e.shr, Pow2(e.s)), e.rem), "shift right")
         \cup Clause(LET ok(r) == Less(r, M) /\ Add(r, Mul(e.hi, M)) = Mul(e.a, Pow2(e.s)) IN Opt(e.shl, ok, e.hi # <<>>), "shift left")
         \cup Clause(LET S == Add(e.a, e.b)  ok(r) == Less(r, M) /\ (r = S \/ Add(r, M) = S)
                     IN Opt(e.sum, ok, ~Less(S, M)) /\ Opt(e.suma, ok, ~Less(S, M)), "integer sum")
         \cup Clause(LET ok(r) == Less(r, M) /\ (Add(r, e.b) = e.a \/ (Less(e.a, e.b) /\ Add(r, e.b) = Add(e.a, M)))
                     IN Opt(e.dif, ok, Less(e.a, e.b)) /\ Opt(e.difa, ok, Less(e.a, e.b)), "integer difference")
    [] e.op = "log2" -> Clause(IF e.r < 0 THEN e.a = <<>> \/ e.a # Pow2(NumBits(e.a) - 1) ELSE e.a = Pow2(e.r), "log2")
    [] e.op = "field" ->
         Clause(e.p = P /\ e.bits = NumBits(P) /\ e.nb = W /\ Add(e.max, One) = M, "modulus")
         \cup Clause(e.zero = <<>> /\ e.czero = <<>> /\ e.izero = <<>> /\ e.default = <<>> /\ e.ff = <<>>
                     /\ e.one = One /\ e.cone = One /\ e.ione = One /\ e.t = One, "constants")
    [] OTHER -> {"crash"}

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \subseteq {"pending"}
=============================================================================
