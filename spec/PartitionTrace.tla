--------------------------- MODULE PartitionTrace ---------------------------
(* A partition is, observably, the relation "equated": x ~ y iff some class   *)
(* of at least two elements contains both.  The operations of the library are *)
(* specified on that relation alone, independently of how classes are stored  *)
(* or in which order partitions are merged.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, v
vars == <<k, i, v>>
Clause(ok, name) == IF ok THEN {} ELSE {name}
ToSet(s) == {s[x] : x \in 1..Len(s)}
Rel(cl) == UNION {{<<a, b>> \in ToSet(cl[c]) \X ToSet(cl[c]) : a # b} : c \in 1..Len(cl)}
InterRel(args) == {p \in Rel(args[1]) : \A j \in 1..Len(args) : p \in Rel(args[j])}
UnionRel(args) == UNION {Rel(args[j]) : j \in 1..Len(args)}
MapRel(args, perm) == {<<perm[p[1] + 1], perm[p[2] + 1]>> : p \in Rel(args[1])}
WellFormed(cl) == /\ \A c \in 1..Len(cl) : Len(cl[c]) >= 2 /\ Cardinality(ToSet(cl[c])) = Len(cl[c])
                  /\ \A c, d \in 1..Len(cl) : c # d => ToSet(cl[c]) \cap ToSet(cl[d]) = {}
Init == k \in 1..Len(Trace) /\ i = 0 /\ v = {}
Next == /\ i = 0 /\ i' = 1 /\ k' = k
        /\ LET t == Trace[k] IN
           v' = IF ~t.ok THEN {"crash"}
                ELSE Clause(WellFormed(t.out), "classes")
                     \cup (CASE t.op = "intersect" -> Clause(Rel(t.out) = InterRel(t.args), "intersect")
                             [] t.op = "combine"   -> Clause(Rel(t.out) = UnionRel(t.args), "combine")
                             [] t.op = "map"       -> Clause(Rel(t.out) = MapRel(t.args, t.perm), "map")
                             [] t.op = "same"      -> Clause(Rel(t.out) = Rel(t.args[1]), "same"))
Spec == Init /\ [][Next]_vars
NoViolation == v = {}
=============================================================================
