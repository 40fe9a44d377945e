----------------------------- MODULE IndexTrace -----------------------------
(* The constraint index and its work queue as a state machine.                *)
(* The specification keeps a plain list of items and performs every edit on   *)
(* it; the real structure's system, its variable lookups and the items its    *)
(* queue delivers are compared after every call of a recorded history.        *)
(*   must : items that have to be delivered before the queue may be empty     *)
(*   may  : items that may be delivered (an index may also remember that an   *)
(*          item used to mention a variable)                                  *)
EXTENDS ConstraintSystem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, sys,
          ever,   \* item -> variables it mentions or has mentioned
          must, may, v
vars == <<k, i, sys, ever, must, may, v>>
Empty == [cons |-> <<>>, bus |-> <<>>, der |-> <<>>]
Init == k \in 1..Len(Trace) /\ i = 0 /\ sys = Empty /\ ever = <<>> /\ must = {} /\ may = {} /\ v = {}
NV == 4
Rows(p) == [1..NV -> 0..(p - 1)]
Items(s) == ({1} \X (1..Len(s.cons))) \cup ({2} \X (1..Len(s.bus))) \cup ({3} \X (1..Len(s.der)))
DerExprs(d) == IF d.m = "const" THEN <<>> ELSE <<d.a, d.b>>
\* the expressions of an item
Exprs(s, x) == CASE x[1] = 1 -> <<s.cons[x[2]]>>
                 [] x[1] = 2 -> <<s.bus[x[2]].mult>> \o s.bus[x[2]].args
                 [] OTHER    -> DerExprs(s.der[x[2]])
ItemVars(s, x) == VarsAll(Exprs(s, x))
Ident(s, x) == CASE x[1] = 1 -> <<1>>
                 [] x[1] = 2 -> <<2, s.bus[x[2]].id>>
                 [] OTHER    -> <<3, s.der[x[2]].v, IF s.der[x[2]].m = "const" THEN s.der[x[2]].k ELSE -1>>
Size(s, kind) == CASE kind = 1 -> Len(s.cons) [] kind = 2 -> Len(s.bus) [] OTHER -> Len(s.der)
SameValue(p, a, b) == a = b \/ \A s \in Rows(p) : Ev(a, s, p) = Ev(b, s, p)
\* ---- the edits on a plain list, as a description of what the new item must be:
\* origin(x) = the old item (or the added one) that the new item x comes from
\* substitution is expressed on values: E[v := e](row) = E(row with v set to e(row))
RECURSIVE After(_, _, _)
After(subs, row, p) == IF subs = <<>> THEN row
   ELSE LET q == subs[Len(subs)]  r == [row EXCEPT ![q.v] = Ev(q.e, row, p)] IN After(SubSeq(subs, 1, Len(subs) - 1), r, p)
\* After applies the substitutions from the last to the first, since E[v1:=e1][v2:=e2](row) = E[v1:=e1](row with v2)
SubstOk(p, old, new, subs) ==
  /\ Len(old) = Len(new)
  /\ \A j \in 1..Len(old) : (old[j] = new[j] /\ \A q \in 1..Len(subs) : subs[q].v \notin Vars(old[j]))
                            \/ \A row \in Rows(p) : Ev(new[j], row, p) = Ev(old[j], After(subs, row, p), p)
AddOk(p, old, add, new) ==
  /\ \A kind \in 1..3 : Size(new, kind) = Size(old, kind) + Size(add, kind)
  /\ \A x \in Items(new) :
       LET n == Size(old, x[1])
           src == IF x[2] <= n THEN old ELSE add
           y == IF x[2] <= n THEN x ELSE <<x[1], x[2] - n>>
       IN Ident(src, y) = Ident(new, x) /\ SubstOk(p, Exprs(src, y), Exprs(new, x), <<>>)
RetainOk(p, old, kind, keep, new) ==
  /\ \A q \in 1..3 : Size(new, q) = IF q = kind THEN Len(keep) ELSE Size(old, q)
  /\ \A x \in Items(new) :
       LET y == IF x[1] = kind THEN <<kind, keep[x[2]]>> ELSE x
       IN Ident(old, y) = Ident(new, x) /\ SubstOk(p, Exprs(old, y), Exprs(new, x), <<>>)
SubstAllOk(p, old, subs, new) ==
  /\ \A q \in 1..3 : Size(new, q) = Size(old, q)
  /\ \A x \in Items(new) : Ident(old, x) = Ident(new, x) /\ SubstOk(p, Exprs(old, x), Exprs(new, x), subs)
\* ---- what the index may remember
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE {}
EverAdd(new) == [x \in Items(new) |-> Get(ever, x) \cup ItemVars(new, x)]
RECURSIVE EverSubs(_, _)
EverSubs(f, subs) == IF subs = <<>> THEN f
   ELSE EverSubs([x \in DOMAIN f |-> IF Head(subs).v \in f[x] THEN f[x] \cup Vars(Head(subs).e) ELSE f[x]], Tail(subs))
From(kind, keep, x) == IF x[1] = kind THEN <<kind, keep[x[2]]>> ELSE x
Real(s) == {x \in Items(s) : x[1] # 3}
\* ---- lookups
Mention(s, V) == {x \in Real(s) : ItemVars(s, x) \cap V # {}}
LookOk(s, f, l) ==
  LET V == Range(l.vars)  R == Range(l.items) IN
  /\ Cardinality(R) = Len(l.items)
  /\ Mention(s, V) \subseteq R
  /\ R \subseteq {x \in Real(s) : Get(f, x) \cap V # {}}
StateOk(s, f, st) ==
  Clause(\A j \in 1..Len(st.looks) : LookOk(s, f, st.looks[j]), "lookup")
  \cup Clause(SysVars(s) \subseteq Range(st.vars), "variables")
  \cup Clause(Range(st.refs) = SysVars(s), "referenced")
Next ==
  /\ v = {} /\ i < Len(Trace[k].ev) /\ k' = k /\ i' = i + 1
  /\ LET t == Trace[k]  e == t.ev[i + 1] IN
     IF e.t = "panic" THEN v' = {"crash"} /\ UNCHANGED <<sys, ever, must, may>>
     ELSE LET new == e.s.sys IN
     /\ sys' = new
     /\ CASE e.t \in {"init", "add"} ->
              LET ok == AddOk(t.p, sys, e.add, new)
                  fresh == {x \in Real(new) : x[2] > Size(sys, x[1])} IN
              /\ ever' = IF ok THEN EverAdd(new) ELSE ever
              /\ must' = must \cup fresh /\ may' = may \cup fresh
              /\ v' = IF ok THEN StateOk(new, ever', e.s) ELSE {"add"}
          [] e.t = "retain" ->
              LET ok == RetainOk(t.p, sys, e.kind, e.keep, new) IN
              /\ ever' = IF ok THEN [x \in Items(new) |-> Get(ever, From(e.kind, e.keep, x))] ELSE ever
              /\ must' = IF ok THEN {x \in Real(new) : From(e.kind, e.keep, x) \in must} ELSE must
              /\ may' = IF ok THEN (IF may = {} THEN {} ELSE Real(new)) ELSE may
              /\ v' = IF ok THEN StateOk(new, ever', e.s) ELSE {"retain"}
          [] e.t = "subst" ->
              LET ok == SubstAllOk(t.p, sys, e.subs, new)
                  V == {e.subs[q].v : q \in 1..Len(e.subs)} IN
              /\ ever' = IF ok THEN EverSubs(ever, e.subs) ELSE ever
              /\ must' = must \cup Mention(sys, V)
              /\ may' = may \cup {x \in Real(sys) : Get(ever, x) \cap V # {}}
              /\ v' = IF ok THEN StateOk(new, ever', e.s) ELSE {"substitute"}
          [] e.t = "touch" ->
              /\ ever' = ever
              /\ must' = must \cup Mention(sys, {e.v})
              /\ may' = may \cup {x \in Real(sys) : Get(ever, x) \cap {e.v} # {}}
              /\ v' = Clause(AddOk(t.p, sys, Empty, new), "changed")
          [] e.t = "pop" ->
              /\ ever' = ever /\ must' = must \ {e.item} /\ may' = may \ {e.item}
              /\ v' = Clause(AddOk(t.p, sys, Empty, new), "changed")
                      \cup IF e.item = <<0, 0>> THEN Clause(must = {}, "lost") ELSE Clause(e.item \in may, "not-queued")
Spec == Init /\ [][Next]_vars
NoViolation == v = {}
=============================================================================
