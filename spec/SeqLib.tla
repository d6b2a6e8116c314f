------------------------------- MODULE SeqLib -------------------------------
(* Operators on sequences shared by the container specifications. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL SX == INSTANCE SequencesExt

Rev(s) == SX!Reverse(s)
Flat(ss) == SX!FlattenSeq(ss)
Elems(s) == {s[i] : i \in 1..Len(s)}
PutAt(s, i, block) == SubSeq(s, 1, i - 1) \o block \o SubSeq(s, i, Len(s))   \* block starts at index i
CutOut(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, Len(s))           \* without i..j
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
Has(s, e) == \E i \in 1..Len(s) : s[i] = e
PosIn(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e /\ \A j \in 1..(i - 1) : s[j] # e
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Elems(s) : Count(s, x) = Count(t, x)
(* the elements of a finite set of integers in increasing order *)
SetSeq(S) == SX!SetToSortSeq(S, LAMBDA x, y : x < y)
B(b) == IF b THEN 1 ELSE 0
=============================================================================
