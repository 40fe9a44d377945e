------------------------------ MODULE JumpTrace ------------------------------
(* C24: recorded listings of jump destinations against the architecture.      *)
EXTENDS Riscv, TLC, IOUtils, Json

VARIABLES k, v
vars == <<k, v>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in 1..Len(s)}
Clause(b, name) == IF b THEN {} ELSE {name}

InText(r, a) == \E i \in 1..Len(r.text) : Within(a, r.text[i].base, r.text[i].size)
Direct(r) == UNION {JumpTargets(Code(r.text[i])) : i \in 1..Len(r.text)}
(* code addresses materialised in registers *)
Taken(r) == {a \in UNION {LET s == Code(r.text[i])
                          IN {PairAddr(s[j], s[j + 1]) : j \in {m \in Pairs(s) : IsSum(s[m], s[m + 1]) /\ s[m + 1].d.rd # 3
                                                               /\ (s[m].d.op = "auipc" \/ s[m].a \in ToSet(r.hi20))}}
                          : i \in 1..Len(r.text)} : InText(r, a)}
(* code addresses stored in data *)
Stored(r) == {a \in {r.rela[i][2] : i \in 1..Len(r.rela)}
                    \cup UNION {LET d == r.data[i] IN {d.words[j] : j \in {m \in 1..Len(d.words) : PlusInt(d.base, 4 * (m - 1)) \in ToSet(r.rel32)}}
                                : i \in 1..Len(r.data)} : InText(r, a)}

Verdict(r) ==
  IF ~r.ok THEN {"refused"}
  ELSE IF r.kind = "rv64"
  THEN LET D == ToSet(r.out.dests)
       IN Clause(r.entry \in D /\ r.out.entry = r.entry, "entry point")
          \cup Clause(\A i \in 1..Len(r.syms) : InText(r, r.syms[i]) => r.syms[i] \in D, "code symbol")
          \cup Clause(Direct(r) \subseteq D, "jump target")
          \cup Clause(\A i \in 1..Len(r.text) : ~LessD(r.text[i].base, r.out.base), "lowest code address")
          \cup Clause(\E i \in 1..Len(r.text) : r.text[i].base = r.out.base, "lowest code address")
  ELSE LET D == ToSet(r.out.labels)
       IN Clause(r.entry \in D, "entry point")
          \cup Clause(Direct(r) \subseteq D, "jump target")
          \cup Clause(Taken(r) \subseteq D, "code address in a register")
          \cup Clause(Stored(r) \subseteq D, "code address in data")

Init == k \in 1..Len(Trace) /\ v = {"pending"}
Next == v = {"pending"} /\ k' = k /\ v' = Verdict(Trace[k])
Spec == Init /\ [][Next]_vars
NoViolation == v \subseteq {"pending"}
=============================================================================
