------------------------------- MODULE SetSpec -------------------------------
(* Hash sets (package set): registers holding mathematical sets of small integers. *)
EXTENDS Integers, Sequences, FiniteSets, SeqLib, TLC
VARIABLES cfg,   \* <<element type used by the driver, number of registers>>
          reg,   \* reg[R]: contents of register R
          ret
vars == <<cfg, reg, ret>>
View == <<cfg, reg>>
Init0 == reg = [R \in 1..cfg[2] |-> {}] /\ ret = <<>>
Keep(r) == ret' = r /\ UNCHANGED <<cfg, reg>>
Put(R, S, r) == reg' = [reg EXCEPT ![R] = S] /\ ret' = r /\ UNCHANGED cfg
Srcs(a) == UNION {reg[a[i]] : i \in 3..Len(a)}
Do(op, a, o) ==
  CASE op = "Insert"  -> Put(a[1], reg[a[1]] \cup {a[2]}, <<B(a[2] \notin reg[a[1]])>>)
    [] op = "Push"    -> Put(a[1], reg[a[1]] \cup {a[i] : i \in 2..Len(a)}, <<>>)
    [] op = "Remove"  -> Put(a[1], reg[a[1]] \ {a[2]}, <<B(a[2] \in reg[a[1]])>>)
    [] op = "ContainAndRemove" -> Put(a[1], reg[a[1]] \ {a[2]}, <<B(a[2] \in reg[a[1]])>>)
    [] op = "Contain" -> Keep(<<B(a[2] \in reg[a[1]])>>)
    [] op = "IsEmpty" -> Keep(<<B(reg[a[1]] = {})>>)
    [] op = "Clear"   -> Put(a[1], {}, <<>>)
    [] op = "New"     -> Put(a[1], {}, <<>>)
    [] op = "Nil"     -> Put(a[1], {}, <<>>)                              \* the nil set: empty, only read from here on
    (* iteration whose callback removes what it is given, stopped after a[2] visits (0: never) *)
    [] op = "RangeRemove" -> /\ Cardinality(Elems(o)) = Len(o)
                             /\ Elems(o) \subseteq reg[a[1]]
                             /\ Len(o) = IF a[2] > 0 /\ a[2] <= Cardinality(reg[a[1]]) THEN a[2] ELSE Cardinality(reg[a[1]])
                             /\ Put(a[1], reg[a[1]] \ Elems(o), o)
    [] op = "CopyFrom" -> Put(a[1], reg[a[1]] \cup reg[a[2]], <<>>)
    [] op = "Clone"   -> Put(a[1], reg[a[2]], <<>>)                      \* register a[1] := a[2].Clone()
    [] op = "Equal"   -> Keep(<<B(reg[a[1]] = reg[a[2]])>>)
    [] op = "IsSubSet"    -> Keep(<<B(reg[a[1]] \subseteq reg[a[2]])>>)
    [] op = "IsSupperSet" -> Keep(<<B(reg[a[2]] \subseteq reg[a[1]])>>)
    [] op = "Difference"  -> Put(a[1], reg[a[2]] \ reg[a[3]], <<>>)
    [] op = "SymmetricDifference" -> Put(a[1], (reg[a[2]] \ reg[a[3]]) \cup (reg[a[3]] \ reg[a[2]]), <<>>)
    [] op = "Intersection" -> Put(a[1], reg[a[2]] \cap reg[a[3]], <<>>)
    [] op = "Union"   -> Put(a[1], reg[a[2]] \cup Srcs(a), <<>>)          \* a[1] := a[2].Union(a[3], ...)
    (* iteration stopped after a[2] visits (0: never): o is what was visited *)
    [] op = "Range"   -> /\ Cardinality(Elems(o)) = Len(o)
                         /\ Elems(o) \subseteq reg[a[1]]
                         /\ Len(o) = IF a[2] > 0 /\ a[2] <= Cardinality(reg[a[1]]) THEN a[2] ELSE Cardinality(reg[a[1]])
                         /\ Keep(o)
(* per register: sorted Slice, Len *)
Proj == Flat([R \in 1..cfg[2] |-> << SetSeq(reg[R]), <<Cardinality(reg[R])>> >>])
ProjOK(s) == s = Proj
(* algebraic laws the reference itself satisfies *)
Inv == \A R, Q \in 1..cfg[2] :
         /\ (reg[R] \subseteq reg[Q] /\ reg[Q] \subseteq reg[R]) <=> reg[R] = reg[Q]
         /\ Cardinality(reg[R] \cup reg[Q]) + Cardinality(reg[R] \cap reg[Q]) = Cardinality(reg[R]) + Cardinality(reg[Q])
=============================================================================
