-------------------------------- MODULE Riscv --------------------------------
(* The RISC-V instruction encodings (RV32/RV64 base, M, A and compressed),    *)
(* addresses as little-endian sequences of 16-bit digits, and what each       *)
(* instruction names: its operation, registers, immediate and static target.  *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- numbers of n 16-bit digits, modulo 2^(16 n) *)
B16 == 65536
Dig(x, n) == [i \in 1..n |-> IF i = 1 THEN x % B16 ELSE IF i = 2 THEN (x \div B16) % B16 ELSE IF x < 0 THEN B16 - 1 ELSE 0]
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + b[i] + carry IN <<s % B16>> \o AddFrom(a, b, i + 1, s \div B16)
Plus(a, b) == AddFrom(a, b, 1, 0)
PlusInt(a, x) == Plus(a, Dig(x, Len(a)))
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
LessD(a, b) == LessAt(a, b, Len(a))
Within(a, base, size) == ~LessD(a, base) /\ LessD(a, PlusInt(base, size))

(* ---- bits of an instruction given as one or two halfwords *)
Pow(n) == 2^n
HBit(h, i) == (h \div Pow(i)) % 2
Bit(w, i) == IF i < 16 THEN HBit(w[1], i) ELSE HBit(w[2], i - 16)
Fld(w, hi, lo) ==
  IF hi < 16 THEN (w[1] \div Pow(lo)) % Pow(hi - lo + 1)
  ELSE IF lo >= 16 THEN (w[2] \div Pow(lo - 16)) % Pow(hi - lo + 1)
  ELSE (w[1] \div Pow(lo)) + (w[2] % Pow(hi - 15)) * Pow(16 - lo)
Sext(x, n) == IF x >= Pow(n - 1) THEN x - Pow(n) ELSE x
RECURSIVE Gather(_, _)
(* pairs <<position in the instruction, position in the value>> *)
Gather(w, ps) == IF ps = <<>> THEN 0 ELSE Bit(w, ps[1][1]) * Pow(ps[1][2]) + Gather(w, Tail(ps))
ImmI(w) == Sext(Fld(w, 31, 20), 12)
ImmS(w) == Sext(Fld(w, 31, 25) * 32 + Fld(w, 11, 7), 12)
ImmB(w) == Sext(Bit(w, 31) * 4096 + Bit(w, 7) * 2048 + Fld(w, 30, 25) * 32 + Fld(w, 11, 8) * 2, 13)
ImmJ(w) == Sext(Bit(w, 31) * 1048576 + Fld(w, 19, 12) * 4096 + Bit(w, 20) * 2048 + Fld(w, 30, 21) * 2, 21)
(* the upper immediate as n digits, sign extended *)
ImmU(w, n) == [i \in 1..n |-> IF i = 1 THEN (w[1] \div 4096) * 4096 ELSE IF i = 2 THEN w[2] ELSE IF w[2] >= 32768 THEN B16 - 1 ELSE 0]
UpperField(w) == Fld(w, 31, 12)

Rec(op, f, rd, rs1, rs2, imm) == [op |-> op, f |-> f, rd |-> rd, rs1 |-> rs1, rs2 |-> rs2, imm |-> imm]
Bad == Rec("unimp", "E", 0, 0, 0, 0)

(* formats: R register, I immediate, L load, S store, B branch, J jump, JR indirect jump, U upper, PC pc-relative upper,
   E no operand, A atomic, LR load-reserved *)
Dec32(w) ==
  LET o == Fld(w, 6, 0)  f3 == Fld(w, 14, 12)  f7 == Fld(w, 31, 25)  f5 == Fld(w, 31, 27)
      rd == Fld(w, 11, 7)  a == Fld(w, 19, 15)  b == Fld(w, 24, 20)
      at(s) == s[f3 + 1]
  IN CASE o = 55 -> Rec("lui", "U", rd, 0, 0, 0)
       [] o = 23 -> Rec("auipc", "PC", rd, 0, 0, 0)
       [] o = 111 -> Rec("jal", "J", rd, 0, 0, ImmJ(w))
       [] o = 103 /\ f3 = 0 -> Rec("jalr", "JR", rd, a, 0, ImmI(w))
       [] o = 99 /\ f3 \notin {2, 3} -> Rec(at(<<"beq", "bne", "", "", "blt", "bge", "bltu", "bgeu">>), "B", 0, a, b, ImmB(w))
       [] o = 3 /\ f3 \in {0, 1, 2, 4, 5} -> Rec(at(<<"lb", "lh", "lw", "", "lbu", "lhu">>), "L", rd, a, 0, ImmI(w))
       [] o = 35 /\ f3 \in {0, 1, 2} -> Rec(at(<<"sb", "sh", "sw">>), "S", 0, a, b, ImmS(w))
       [] o = 19 /\ f3 \in {0, 2, 3, 4, 6, 7} ->
            Rec(at(<<"addi", "", "slti", "sltiu", "xori", "", "ori", "andi">>), "I", rd, a, 0, ImmI(w))
       [] o = 19 /\ f3 = 1 /\ f7 = 0 -> Rec("slli", "I", rd, a, 0, b)
       [] o = 19 /\ f3 = 5 /\ f7 = 0 -> Rec("srli", "I", rd, a, 0, b)
       [] o = 19 /\ f3 = 5 /\ f7 = 32 -> Rec("srai", "I", rd, a, 0, b)
       [] o = 51 /\ f7 = 0 -> Rec(at(<<"add", "sll", "slt", "sltu", "xor", "srl", "or", "and">>), "R", rd, a, b, 0)
       [] o = 51 /\ f7 = 32 /\ f3 \in {0, 5} -> Rec(at(<<"sub", "", "", "", "", "sra">>), "R", rd, a, b, 0)
       [] o = 51 /\ f7 = 1 -> Rec(at(<<"mul", "mulh", "mulhsu", "mulhu", "div", "divu", "rem", "remu">>), "R", rd, a, b, 0)
       [] o = 47 /\ f3 = 2 /\ f5 = 2 -> Rec("lr.w", "LR", rd, a, 0, 0)
       [] o = 47 /\ f3 = 2 /\ f5 = 3 -> Rec("sc.w", "A", rd, a, b, 0)
       [] o = 47 /\ f3 = 2 /\ f5 = 1 -> Rec("amoswap.w", "A", rd, a, b, 0)
       [] o = 47 /\ f3 = 2 /\ f5 % 4 = 0 ->
            Rec(<<"amoadd.w", "amoxor.w", "amoor.w", "amoand.w", "amomin.w", "amomax.w", "amominu.w", "amomaxu.w">>[f5 \div 4 + 1],
                "A", rd, a, b, 0)
       [] o = 115 /\ f3 = 0 /\ rd = 0 /\ a = 0 /\ Fld(w, 31, 20) = 0 -> Rec("ecall", "E", 0, 0, 0, 0)
       [] o = 115 /\ f3 = 0 /\ rd = 0 /\ a = 0 /\ Fld(w, 31, 20) = 1 -> Rec("ebreak", "E", 0, 0, 0, 0)
       [] OTHER -> Bad

(* the 32-bit instruction a compressed one stands for (RV32) *)
Dec16(h) ==
  LET w == <<h, 0>>
      q == h % 4  f3 == h \div 8192  rd == Fld(w, 11, 7)  r2 == Fld(w, 6, 2)
      p1 == 8 + Fld(w, 9, 7)  p2 == 8 + Fld(w, 4, 2)  b12 == HBit(h, 12)
      imm6 == Sext(b12 * 32 + r2, 6)
      sh == b12 * 32 + r2
      lw == Fld(w, 12, 10) * 8 + HBit(h, 6) * 4 + HBit(h, 5) * 64
      immj == Sext(Gather(w, <<<<12, 11>>, <<11, 4>>, <<10, 9>>, <<9, 8>>, <<8, 10>>, <<7, 6>>, <<6, 7>>, <<5, 3>>, <<4, 2>>, <<3, 1>>, <<2, 5>>>>), 12)
      immb == Sext(Gather(w, <<<<12, 8>>, <<11, 4>>, <<10, 3>>, <<6, 7>>, <<5, 6>>, <<4, 2>>, <<3, 1>>, <<2, 5>>>>), 9)
  IN CASE q = 0 /\ f3 = 0 /\ h # 0 ->
            Rec("addi", "I", p2, 2, 0, Gather(w, <<<<12, 5>>, <<11, 4>>, <<10, 9>>, <<9, 8>>, <<8, 7>>, <<7, 6>>, <<6, 2>>, <<5, 3>>>>))
       [] q = 0 /\ f3 = 2 -> Rec("lw", "L", p2, p1, 0, lw)
       [] q = 0 /\ f3 = 6 -> Rec("sw", "S", 0, p1, p2, lw)
       [] q = 1 /\ f3 = 0 -> Rec("addi", "I", rd, rd, 0, imm6)
       [] q = 1 /\ f3 = 1 -> Rec("jal", "J", 1, 0, 0, immj)
       [] q = 1 /\ f3 = 2 -> Rec("addi", "I", rd, 0, 0, imm6)
       [] q = 1 /\ f3 = 3 /\ rd = 2 ->
            Rec("addi", "I", 2, 2, 0, Sext(Gather(w, <<<<12, 9>>, <<6, 4>>, <<5, 6>>, <<4, 8>>, <<3, 7>>, <<2, 5>>>>), 10))
       [] q = 1 /\ f3 = 3 -> Rec("lui", "U", rd, 0, 0, imm6)
       [] q = 1 /\ f3 = 4 /\ Fld(w, 11, 10) = 0 -> Rec("srli", "I", p1, p1, 0, sh)
       [] q = 1 /\ f3 = 4 /\ Fld(w, 11, 10) = 1 -> Rec("srai", "I", p1, p1, 0, sh)
       [] q = 1 /\ f3 = 4 /\ Fld(w, 11, 10) = 2 -> Rec("andi", "I", p1, p1, 0, imm6)
       [] q = 1 /\ f3 = 4 /\ b12 = 0 -> Rec(<<"sub", "xor", "or", "and">>[Fld(w, 6, 5) + 1], "R", p1, p1, p2, 0)
       [] q = 1 /\ f3 = 5 -> Rec("jal", "J", 0, 0, 0, immj)
       [] q = 1 /\ f3 = 6 -> Rec("beq", "B", 0, p1, 0, immb)
       [] q = 1 /\ f3 = 7 -> Rec("bne", "B", 0, p1, 0, immb)
       [] q = 2 /\ f3 = 0 -> Rec("slli", "I", rd, rd, 0, sh)
       [] q = 2 /\ f3 = 2 -> Rec("lw", "L", rd, 2, 0, b12 * 32 + Fld(w, 6, 4) * 4 + Fld(w, 3, 2) * 64)
       [] q = 2 /\ f3 = 4 /\ r2 = 0 /\ rd = 0 -> Rec("ebreak", "E", 0, 0, 0, 0)
       [] q = 2 /\ f3 = 4 /\ r2 = 0 -> Rec("jalr", "JR", b12, rd, 0, 0)
       [] q = 2 /\ f3 = 4 -> Rec("add", "R", rd, IF b12 = 1 THEN rd ELSE 0, r2, 0)
       [] q = 2 /\ f3 = 6 -> Rec("sw", "S", 0, 2, r2, Fld(w, 12, 9) * 4 + Fld(w, 8, 7) * 64)
       [] OTHER -> Bad

(* ---- a stretch of code: its instructions with their addresses *)
RECURSIVE Scan(_, _, _)
Scan(code, at, i) ==
  IF i > Len(code) THEN <<>>
  ELSE IF code[i] % 4 = 3
       THEN LET w == <<code[i], code[i + 1]>> IN <<[a |-> at, n |-> 4, w |-> w, d |-> Dec32(w)]>> \o Scan(code, PlusInt(at, 4), i + 2)
       ELSE <<[a |-> at, n |-> 2, w |-> <<code[i], 0>>, d |-> Dec16(code[i])]>> \o Scan(code, PlusInt(at, 2), i + 1)
Code(seg) == Scan(seg.code, seg.base, 1)

(* the upper immediate of a lui: from its 32-bit encoding, or the compressed one *)
Upper(c) == IF c.n = 2 THEN Dig(c.d.imm * 4096, Len(c.a)) ELSE ImmU(c.w, Len(c.a))
IsDirect(c) == c.d.f \in {"B", "J"}
Target(c) == PlusInt(c.a, c.d.imm)
(* the address formed by an upper immediate and the 12-bit part of its successor *)
PairAddr(c, e) == PlusInt(IF c.d.op = "auipc" THEN Plus(c.a, Upper(c)) ELSE Upper(c), e.d.imm)
(* the second instruction jumps to the address the pair forms *)
IsCall(c, e) == c.d.op = "auipc" /\ e.d.op = "jalr" /\ e.d.rs1 = c.d.rd /\ c.d.rd # 0
IsSum(c, e) == c.d.op \in {"auipc", "lui"} /\ e.d.op = "addi" /\ e.d.rs1 = c.d.rd
Pairs(s) == {i \in 1..(Len(s) - 1) : TRUE}
JumpTargets(s) == {Target(s[i]) : i \in {j \in 1..Len(s) : IsDirect(s[j])}}
                  \cup {PairAddr(s[i], s[i + 1]) : i \in {j \in Pairs(s) : IsCall(s[j], s[j + 1])}}
=============================================================================
