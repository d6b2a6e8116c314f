--------------------------------- MODULE Vec ---------------------------------
(***************************************************************************)
(* Vectors (package vec): registers hold plain sequences together with     *)
(* their comparison functions; "held" slices are what CloneToSlice and Cut *)
(* handed out.  Indices are 0-based as in the code.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, SeqLib, TLC

VARIABLES
  cfg,      \* <<projection mode, element kind, registers, holds>>
  reg,      \* reg[R]: contents of vector R
  les, eql, \* les[R], eql[R]: comparison functions of vector R (0: the default of the element type)
  hold,     \* hold[H]: contents of the slice held in H
  hint,     \* last capacity manipulation; only distinguishes generated behaviours
  ret
vars == <<cfg, reg, les, eql, hold, hint, ret>>
View == <<cfg, reg, les, eql, hold, hint>>

Regs  == 1..cfg[3]
Holds == 1..cfg[4]
Kind  == cfg[2]       \* 0: plain ints; else typed elements whose value v stands for rank v \div 100 (rank 0: NaN)
Key(v) == v \div 100
LessBy(c, x, y) == CASE c = 0 -> IF Kind = 0 THEN x < y ELSE Key(x) < Key(y)
                     [] c = 1 -> Key(x) < Key(y)
                     [] c = 2 -> Key(x) > Key(y)
                     [] c = 3 -> Key(x) % 3 < Key(y) % 3
EqBy(c, x, y) == CASE c = 0 -> IF Kind = 0 THEN x = y ELSE Key(x) = Key(y)
                   [] c = 1 -> Key(x) = Key(y)
                   [] c = 2 -> Key(x) = Key(y)
                   [] c = 3 -> Key(x) % 3 = Key(y) % 3
SortedBy(c, s) == \A i \in 1..(Len(s) - 1) : ~LessBy(c, s[i + 1], s[i])
(* the elements class by class, each class in the order it had *)
Rank(c, x) == CASE c = 0 -> IF Kind = 0 THEN x ELSE Key(x)
                [] c = 1 -> Key(x)
                [] c = 2 -> 0 - Key(x)
                [] c = 3 -> Key(x) % 3
Stable(c, s) == LET rs == SetSeq({Rank(c, s[i]) : i \in 1..Len(s)})
                IN Flat([i \in 1..Len(rs) |-> SelectSeq(s, LAMBDA x : Rank(c, x) = rs[i])])
(* without the elements equal to the last one kept *)
Compacted(c, s) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ EqBy(c, acc[Len(acc)], x) THEN acc ELSE Append(acc, x), <<>>, s)
(* lexicographic comparison, decided at the first place where the elements are not equal *)
Lex(c, e, s, t) == LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
                       D == {i \in 1..n : ~EqBy(e, s[i], t[i]) \/ LessBy(c, s[i], t[i])}
                   IN IF D # {} THEN LET i == CHOOSE x \in D : \A y \in D : x <= y IN IF LessBy(c, s[i], t[i]) THEN -1 ELSE 1
                      ELSE CASE Len(s) = Len(t) -> 0 [] Len(s) < Len(t) -> -1 [] OTHER -> 1
SameBy(e, s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : EqBy(e, s[i], t[i])

Init0 == /\ reg = [R \in 1..cfg[3] |-> <<>>]
         /\ les = [R \in 1..cfg[3] |-> 0]
         /\ eql = [R \in 1..cfg[3] |-> 0]
         /\ hold = [H \in 1..cfg[4] |-> <<>>]
         /\ hint = 0 /\ ret = <<>>

Keep(r) == ret' = r /\ UNCHANGED <<cfg, reg, les, eql, hold, hint>>
Put(R, s, r) == reg' = [reg EXCEPT ![R] = s] /\ ret' = r /\ hint' = 0 /\ UNCHANGED <<cfg, les, eql, hold>>
PutN(R, s, r, n) == reg' = [reg EXCEPT ![R] = s] /\ ret' = r /\ hint' = n /\ UNCHANGED <<cfg, les, eql, hold>>
PutH(R, s, H, h, r) == /\ reg' = [reg EXCEPT ![R] = s] /\ hold' = [hold EXCEPT ![H] = h]
                       /\ ret' = r /\ hint' = 0 /\ UNCHANGED <<cfg, les, eql>>
(* D := a copy of R with contents d, R keeps s; comparison functions are handed over *)
Copy(D, d, R, s) == /\ reg' = [reg EXCEPT ![R] = s, ![D] = d]
                    /\ les' = [les EXCEPT ![D] = les[R]] /\ eql' = [eql EXCEPT ![D] = eql[R]]
                    /\ ret' = <<>> /\ hint' = 0 /\ UNCHANGED <<cfg, hold>>
In(R, i) == i >= 0 /\ i < Len(reg[R])                             \* valid element index
Iv(R, i, j) == i >= 0 /\ i <= j /\ j <= Len(reg[R])               \* valid interval [i, j)
Sub(R, i, j) == SubSeq(reg[R], i + 1, j)
NotSub(R, i, j) == CutOut(reg[R], i + 1, j)
Args(a, n) == SubSeq(a, n, Len(a))
(* an index outside leaves everything as it was; whether the call panics is only fixed where documented *)
Rejected(o) == Keep(o)

(* searching and extremes under comparison functions c (less), e (equal) *)
AllEq(e, s, x) == SetSeq({i - 1 : i \in {j \in 1..Len(s) : EqBy(e, s[j], x)}})
FirstEq(e, s, x) == LET t == AllEq(e, s, x) IN IF t = <<>> THEN -1 ELSE t[1]
Bisect(c, e, s, x, o) ==
  IF SortedBy(c, s)
  THEN LET p == Cardinality({i \in 1..Len(s) : LessBy(c, s[i], x)}) IN
       Keep(<<p, B(p < Len(s) /\ EqBy(e, s[p + 1], x))>>)
  ELSE Keep(o)
Greatest(c, s, o) == Len(o) = 1 /\ Has(s, o[1]) /\ \A i \in 1..Len(s) : ~LessBy(c, o[1], s[i])
Least(c, s, o)    == Len(o) = 1 /\ Has(s, o[1]) /\ \A i \in 1..Len(s) : ~LessBy(c, s[i], o[1])

Do(op, a, o) ==
  LET R == a[1] s == reg[R] IN
  CASE op = "Push"     -> Put(R, s \o Args(a, 2), <<>>)
    [] op = "PushSelf" -> Put(R, s \o s, <<>>)
    [] op = "Load"     -> Put(R, Args(a, 2), <<>>)                      \* Clear, then Push
    [] op = "Pop"      -> IF s = <<>> THEN Keep(<<0, 0>>) ELSE Put(R, SubSeq(s, 1, Len(s) - 1), <<1, s[Len(s)]>>)
    [] op = "Remove"   -> IF In(R, a[2]) THEN Put(R, NotSub(R, a[2], a[2] + 1), <<1, s[a[2] + 1]>>) ELSE Keep(<<0, 0>>)
    [] op = "ConpareAndRemove" -> IF In(R, a[2]) /\ EqBy(eql[R], s[a[2] + 1], a[3])
                                  THEN Put(R, NotSub(R, a[2], a[2] + 1), <<1, s[a[2] + 1]>>) ELSE Keep(<<0, 0>>)
    [] op = "Get"      -> Keep(IF In(R, a[2]) THEN <<1, s[a[2] + 1]>> ELSE <<0, 0>>)
    [] op = "Set"      -> IF In(R, a[2]) THEN Put(R, [s EXCEPT ![a[2] + 1] = a[3]], <<1>>) ELSE Keep(<<0>>)
    [] op = "First"    -> Keep(IF s = <<>> THEN <<0, 0>> ELSE <<1, s[1]>>)
    [] op = "Last"     -> Keep(IF s = <<>> THEN <<0, 0>> ELSE <<1, s[Len(s)]>>)
    [] op = "Swap"     -> IF In(R, a[2]) /\ In(R, a[3])
                          THEN Put(R, [s EXCEPT ![a[2] + 1] = s[a[3] + 1], ![a[3] + 1] = s[a[2] + 1]], <<>>) ELSE Keep(<<>>)
    [] op = "Cut"      -> IF Iv(R, a[2], a[3]) THEN Put(R, NotSub(R, a[2], a[3]), Sub(R, a[2], a[3])) ELSE Keep(<<>>)
    [] op = "CutH"     -> IF Iv(R, a[2], a[3]) THEN PutH(R, NotSub(R, a[2], a[3]), a[4], Sub(R, a[2], a[3]), <<>>)
                          ELSE PutH(R, s, a[4], <<>>, <<>>)
    [] op = "SliceCut" -> Keep(IF Iv(R, a[2], a[3]) THEN Sub(R, a[2], a[3]) ELSE <<>>)
    [] op = "Delete"   -> IF Iv(R, a[2], a[3]) THEN Put(R, NotSub(R, a[2], a[3]), <<>>) ELSE Rejected(o)
    [] op = "Insert"   -> IF a[2] >= 0 /\ a[2] <= Len(s) THEN Put(R, PutAt(s, a[2] + 1, Args(a, 3)), <<>>)
                          ELSE IF Len(a) = 2 THEN Rejected(o) ELSE Keep(<<-777>>)
    [] op = "InsertSelf" -> Put(R, PutAt(s, a[2] + 1, Sub(R, a[3], a[4])), <<>>)   \* v.Insert(i, v.Slice()[j:k]...)
    [] op = "Replace"  -> IF Iv(R, a[2], a[3]) THEN Put(R, Sub(R, 0, a[2]) \o Args(a, 4) \o Sub(R, a[3], Len(s)), <<>>) ELSE Rejected(o)
    [] op = "ReplaceSelf" -> Put(R, Sub(R, 0, a[2]) \o Sub(R, a[4], a[5]) \o Sub(R, a[3], Len(s)), <<>>)
    [] op = "Reverse"  -> Put(R, Rev(s), <<>>)
    [] op = "Compact"  -> Put(R, Compacted(eql[R], s), <<>>)
    [] op = "CompactFunc" -> Put(R, Compacted(a[2], s), <<>>)
    [] op = "Clear"    -> Put(R, <<>>, <<>>)
    [] op = "New"      -> /\ reg' = [reg EXCEPT ![R] = <<>>] /\ les' = [les EXCEPT ![R] = 0] /\ eql' = [eql EXCEPT ![R] = 0]
                          /\ ret' = <<>> /\ hint' = 0 /\ UNCHANGED <<cfg, hold>>
    [] op = "Grow"     -> PutN(R, s, <<>>, 1)
    [] op = "Clip"     -> PutN(R, s, <<>>, 2)
    [] op = "Range"    -> Keep(IF a[2] > 0 /\ a[2] <= Len(s) THEN SubSeq(s, 1, a[2]) ELSE s)
    (* copies *)
    [] op = "Clone"    -> Copy(a[2], s, R, s)
    [] op = "SplitOff" -> IF Iv(R, a[3], Len(s)) THEN Copy(a[2], Sub(R, a[3], Len(s)), R, Sub(R, 0, a[3])) ELSE Copy(a[2], <<>>, R, s)
    [] op = "CloneToSlice" -> PutH(R, s, a[2], s, <<>>)
    [] op = "SetHold"  -> /\ hold' = [hold EXCEPT ![a[1]] = [i \in 1..Len(@) |-> IF i = a[2] + 1 THEN a[3] ELSE @[i]]]
                          /\ ret' = <<>> /\ UNCHANGED <<cfg, reg, les, eql, hint>>
    [] op = "SetLess"  -> /\ les' = [les EXCEPT ![R] = a[2]] /\ ret' = <<>> /\ UNCHANGED <<cfg, reg, eql, hold, hint>>
    [] op = "SetEqual" -> /\ eql' = [eql EXCEPT ![R] = a[2]] /\ ret' = <<>> /\ UNCHANGED <<cfg, reg, les, hold, hint>>
    [] op = "SetCmp"   -> /\ les' = [les EXCEPT ![R] = a[2]] /\ eql' = [eql EXCEPT ![R] = a[2]] /\ ret' = <<>>
                          /\ UNCHANGED <<cfg, reg, hold, hint>>
    (* ordering and searching *)
    [] op = "Sort"     -> /\ SameBag(o, s) /\ SortedBy(les[R], o) /\ Put(R, o, o)
    [] op = "SortFunc" -> /\ SameBag(o, s) /\ SortedBy(a[2], o) /\ Put(R, o, o)
    [] op = "SortStable"     -> LET t == Stable(les[R], s) IN Put(R, t, t)
    [] op = "SortStableFunc" -> LET t == Stable(a[2], s) IN Put(R, t, t)
    [] op = "IsSorted" -> Keep(<<B(SortedBy(les[R], s))>>)
    [] op = "IsSortedFunc" -> Keep(<<B(SortedBy(a[2], s))>>)
    [] op = "BinarySearch" -> Bisect(les[R], eql[R], s, a[2], o)
    [] op = "BinarySearchFunc" -> Bisect(a[3], a[3], s, a[2], o)
    [] op = "Search"   -> Keep(<<FirstEq(eql[R], s, a[2])>>)
    [] op = "SearchFunc" -> Keep(<<FirstEq(a[3], s, a[2])>>)
    [] op = "SearchAll" -> Keep(AllEq(eql[R], s, a[2]))
    [] op = "SearchAllFunc" -> Keep(AllEq(a[3], s, a[2]))
    [] op = "Contains" -> Keep(<<B(AllEq(eql[R], s, a[2]) # <<>>)>>)
    [] op = "ContainsFunc" -> Keep(<<B(AllEq(a[3], s, a[2]) # <<>>)>>)
    [] op = "Max"      -> (s = <<>> \/ Greatest(les[R], s, o)) /\ Keep(o)
    [] op = "MaxFunc"  -> (s = <<>> \/ Greatest(a[2], s, o)) /\ Keep(o)
    [] op = "Min"      -> (s = <<>> \/ Least(les[R], s, o)) /\ Keep(o)
    [] op = "MinFunc"  -> (s = <<>> \/ Least(a[2], s, o)) /\ Keep(o)
    [] op = "Compare"  -> Keep(<<Lex(les[R], eql[R], s, reg[a[2]])>>)
    [] op = "CompareFunc"  -> Keep(<<Lex(a[3], a[3], s, reg[a[2]])>>)
    [] op = "EqualVec" -> Keep(<<B(SameBy(eql[R], s, reg[a[2]]))>>)
    [] op = "EqualSlice" -> Keep(<<B(SameBy(eql[R], s, reg[a[2]]))>>)
    [] op = "EqualVecFunc" -> Keep(<<B(SameBy(a[3], s, reg[a[2]]))>>)
    [] op = "EqualSliceFunc" -> Keep(<<B(SameBy(a[3], s, reg[a[2]]))>>)
    [] op = "LessAt"   -> Keep(<<B(LessBy(les[R], s[a[2] + 1], s[a[3] + 1])), B(EqBy(eql[R], s[a[2] + 1], s[a[3] + 1]))>>)

(* mode 17, 18: contents of every register by Slice and <<Len, IsEmpty>>;                                    *)
(* mode 19: contents, held slices, and the comparisons of every register probed on the pairs (100,200),(200,100),(300,100),(100,101) *)
Probe(R) == LET P(x, y) == <<B(LessBy(les[R], x, y)), B(EqBy(eql[R], x, y))>> IN P(100, 200) \o P(200, 100) \o P(400, 100) \o P(100, 100)
Proj == Flat([R \in Regs |-> << reg[R], <<Len(reg[R]), B(reg[R] = <<>>)>> >>])
        \o (IF cfg[1] = 19 THEN hold \o [R \in Regs |-> Probe(R)] ELSE <<>>)
ProjOK(s) == s = Proj

Inv == /\ \A R \in Regs : LET t == Stable(les[R], reg[R]) IN SortedBy(les[R], t) /\ SameBag(t, reg[R])
=============================================================================
