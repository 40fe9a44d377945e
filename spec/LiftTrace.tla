------------------------------ MODULE LiftTrace ------------------------------
(* C25: a loaded 32-bit program, as it is handed to code generation, means    *)
(* what its binary says. Every statement stands for one instruction, or for   *)
(* two whose joint effect it has; labels are resolved through the statements. *)
EXTENDS Riscv, TLC, IOUtils, Json

VARIABLES k, v
vars == <<k, v>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in 1..Len(s)}
Clause(b, name) == IF b THEN {} ELSE {name}
RECURSIVE Join(_, _)
Join(r, i) == IF i > Len(r.text) THEN <<>> ELSE Code(r.text[i]) \o Join(r, i + 1)

InText(r, a) == \E i \in 1..Len(r.text) : Within(a, r.text[i].base, r.text[i].size)
Syscalls == <<"input", "output", "poseidon_gl", "affine_256", "ec_add", "ec_double", "keccakf", "mod_256", "halt", "poseidon2_gl",
              "native_hash", "commit_public", "invert_gl", "split_gl_vec", "merge_gl">>

(* statement s has operation op and operands of the given shape; a label operand is checked later *)
Is(s, op, shape, val) == s.op = op /\ shape \in DOMAIN s.a /\ s.a[shape] = val
IsL(s, op, shape, regs) == s.op = op /\ shape \in DOMAIN s.a /\ SubSeq(s.a[shape], 1, Len(regs)) = regs
LabelOf(s) == LET sh == CHOOSE x \in {"l", "rl", "rrl"} : x \in DOMAIN s.a IN s.a[sh][Len(s.a[sh])]
D2(x) == Dig(x, 2)

(* one statement for one instruction *)
One(c, s) ==
  LET d == c.d IN
  CASE d.f = "R" -> Is(s, d.op, "rrr", <<d.rd, d.rs1, d.rs2>>)
    [] d.f = "I" -> Is(s, d.op, "rri", <<d.rd, d.rs1, D2(d.imm)>>)
    [] d.f = "L" -> Is(s, d.op, "rro", <<d.rd, d.rs1, D2(d.imm)>>)
    [] d.f = "S" -> Is(s, d.op, "rro", <<d.rs2, d.rs1, D2(d.imm)>>)
    [] d.f = "B" -> IsL(s, d.op, "rrl", <<d.rs1, d.rs2>>)
    [] d.f = "J" -> IsL(s, d.op, "rl", <<d.rd>>)
    [] d.f = "JR" -> Is(s, d.op, "rro", <<d.rd, d.rs1, D2(d.imm)>>)
    [] d.f = "A" -> Is(s, d.op, "rrr2", <<d.rd, d.rs2, d.rs1>>)
    [] d.f = "LR" -> Is(s, d.op, "rr", <<d.rd, d.rs1>>)
    [] d.f = "U" -> /\ s.op = "lui" /\ "ri" \in DOMAIN s.a /\ s.a.ri[1] = d.rd
                    \* the value is shifted left by 12 later: its low 20 bits count
                    /\ LET u == Upper(c)  n == s.a.ri[2] IN (n[1] % 16) * 4096 = u[1] /\ n[1] \div 16 + (n[2] % 16) * 4096 = u[2]
    [] d.f = "PC" -> Is(s, "li", "ri", <<d.rd, Plus(c.a, Upper(c))>>)
    [] OTHER -> Is(s, d.op, "empty", TRUE)

(* the joined value is a code address: it has to be a label, since code is laid out anew *)
CodeRef(r, c, e) == IsSum(c, e) /\ e.d.rd # 3 /\ (c.d.op = "auipc" \/ c.a \in ToSet(r.hi20)) /\ InText(r, PairAddr(c, e))
(* one statement for two adjacent instructions *)
Two(r, c, e, s) ==
  /\ e.a = PlusInt(c.a, c.n)
  /\ \/ CodeRef(r, c, e) /\ IsL(s, "la", "rl", <<e.d.rd>>)
     \/ IsSum(c, e) /\ ~CodeRef(r, c, e) /\ c.d.rd = e.d.rd /\ Is(s, "li", "ri", <<e.d.rd, PairAddr(c, e)>>)
     \/ /\ c.d.op = "auipc" /\ e.d.f = "L" /\ e.d.rs1 = c.d.rd /\ e.d.rd = c.d.rd
        /\ Is(s, e.d.op, "rro", <<e.d.rd, 0, PairAddr(c, e)>>)
     \/ IsCall(c, e) /\ e.d.rd = c.d.rd /\ IsL(s, "jal", "rl", <<e.d.rd>>)
     \/ IsCall(c, e) /\ e.d.rd = 0 /\ c.d.rd = 6 /\ IsL(s, "tail", "l", <<>>)
     \/ /\ c.d.op = "addi" /\ c.d.rd = 5 /\ c.d.rs1 = 0 /\ e.d.op = "ecall" /\ c.d.imm \in 1..Len(Syscalls)
        /\ Is(s, Syscalls[c.d.imm], "empty", TRUE)
OneOk(r, C, i, s) == One(C[i], s) /\ ~(i < Len(C) /\ C[i + 1].a = PlusInt(C[i].a, C[i].n) /\ CodeRef(r, C[i], C[i + 1]))

(* all readings of the statements S as the code C: for each statement the code it stands for <<first, count>> *)
RECURSIVE Read(_, _, _, _, _)
Read(r, C, S, i, j) ==
  IF i > Len(C) \/ j > Len(S) THEN (IF i > Len(C) /\ j > Len(S) THEN {<<>>} ELSE {})
  ELSE (IF OneOk(r, C, i, S[j]) THEN {<< <<i, 1>> >> \o t : t \in Read(r, C, S, i + 1, j + 1)} ELSE {})
       \cup (IF i < Len(C) /\ Two(r, C[i], C[i + 1], S[j]) THEN {<< <<i, 2>> >> \o t : t \in Read(r, C, S, i + 2, j + 1)} ELSE {})

RECURSIVE Instrs(_, _)
Instrs(S, i) == IF i > Len(S) THEN <<>> ELSE (IF S[i].t = "i" THEN <<S[i]>> ELSE <<>>) \o Instrs(S, i + 1)
CountI(S, q) == Cardinality({i \in 1..q : S[i].t = "i"})
(* where the label n stands: the address of the next instruction *)
Where(S, A, n) == {A[CountI(S, q) + 1] : q \in {i \in 1..Len(S) : S[i].t = "l" /\ S[i].n = n /\ CountI(S, i) < Len(A)}}
Once(S, n) == Cardinality({q \in 1..Len(S) : S[q].t = "l" /\ S[q].n = n}) = 1

HasLabel(s) == \E x \in {"l", "rl", "rrl"} : x \in DOMAIN s.a
Goal(C, m) == IF m[2] = 2 THEN PairAddr(C[m[1]], C[m[1] + 1]) ELSE Target(C[m[1]])

Memory(r) ==
  LET cells == UNION {{<<PlusInt(r.data[i].base, 4 * (j - 1)), r.data[i].words[j]>> : j \in 1..Len(r.data[i].words)} : i \in 1..Len(r.data)}
      dyn == {<<r.rela[i][1], r.rela[i][2]>> : i \in 1..Len(r.rela)}
      dynAt == {x[1] : x \in dyn}
  IN {[a |-> x[1], v |-> x[2], ptr |-> x[1] \in ToSet(r.rel32)] : x \in {y \in cells : y[1] \notin dynAt}}
     \cup {[a |-> x[1], v |-> x[2], ptr |-> TRUE] : x \in dyn}

Verdict(r) ==
  IF ~r.ok THEN {"refused"}
  ELSE
  LET C == Join(r, 1)
      S == r.out.stmts
      I == Instrs(S, 1)
      M == Read(r, C, I, 1, 1)
      E == r.out.mem
  IN IF M = {} THEN {"instructions"}
     ELSE LET m == CHOOSE x \in M : TRUE
              A == [j \in 1..Len(m) |-> C[m[j][1]].a]
              At(n, a) == Once(S, n) /\ Where(S, A, n) = {a}
          IN Clause(\A j \in 1..Len(I) : HasLabel(I[j]) => At(LabelOf(I[j]), Goal(C, m[j])), "target label")
             \cup Clause(At(r.out.start, r.entry), "start")
             \cup Clause(r.out.prover = r.pd, "prover data")
             \cup Clause(\A i, j \in 1..Len(E) : E[i].a = E[j].a => i = j, "memory listed twice")
             \cup Clause(\A x \in Memory(r) :
                           LET es == {i \in 1..Len(E) : E[i].a = x.a}
                           IN IF x.ptr /\ InText(r, x.v)
                              THEN \E i \in es : E[i].t = "l" /\ At(E[i].l, x.v)
                              ELSE IF x.v = <<0, 0>> THEN \A i \in es : E[i].t = "v" /\ E[i].v = x.v
                              ELSE \E i \in es : E[i].t = "v" /\ E[i].v = x.v, "initial memory")
             \cup Clause(\A i \in 1..Len(E) : \E x \in Memory(r) : x.a = E[i].a, "memory out of nowhere")

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \subseteq {"pending"}
=============================================================================
