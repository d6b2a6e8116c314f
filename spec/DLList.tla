------------------------------- MODULE DLList -------------------------------
(***************************************************************************)
(* Doubly linked lists (package dllist): several lists over a common pool   *)
(* of element handles.  A list is a sequence of element identities; an      *)
(* element belongs to at most one list.  Handles outlive membership: an     *)
(* operation given a handle that is not in the list must change nothing.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SeqLib, TLC

VARIABLES
  cfg,    \* <<projection mode, number of lists, zero-value lists?>>; mode 0: members only, 1: every handle, 2: values only
  seq,    \* seq[L]: sequence of element ids of list L
  val,    \* val[e]: value of element e; ids are 1..Len(val) in creation order
  dead,   \* handles whose fate the specification leaves open (elements of a list that was sorted)
  ret     \* result of the last operation

vars == <<cfg, seq, val, dead, ret>>
View == <<cfg, seq, val, dead>>

Lists == 1..cfg[2]
N     == Len(val)
Handles == (1..N) \ dead

In(L, e)  == \E i \in 1..Len(seq[L]) : seq[L][i] = e
Owner(e)  == IF \E L \in Lists : In(L, e) THEN CHOOSE L \in Lists : In(L, e) ELSE 0
Pos(L, e) == CHOOSE i \in 1..Len(seq[L]) : seq[L][i] = e
Del(s, e) == Without(s, e)
PutAfter(s, m, e)  == PutAt(s, PosIn(s, m) + 1, <<e>>)
PutBefore(s, m, e) == PutAt(s, PosIn(s, m), <<e>>)
Vals(s) == [i \in 1..Len(s) |-> val[s[i]]]

Init0 == /\ seq = [L \in 1..cfg[2] |-> <<>>]
         /\ val = <<>>
         /\ dead = {}
         /\ ret = <<>>

-----------------------------------------------------------------------------
(* Insertion *)
AddAt(L, i, v) == /\ seq' = [seq EXCEPT ![L] = PutAt(@, i, <<N + 1>>)]
                  /\ val' = Append(val, v)
                  /\ ret' = <<N + 1>>
                  /\ UNCHANGED <<cfg, dead>>
Nothing(r) == /\ ret' = r
              /\ UNCHANGED <<cfg, seq, val, dead>>

PushFront(L, v) == AddAt(L, 1, v)
PushBack(L, v)  == AddAt(L, Len(seq[L]) + 1, v)
InsBefore(L, v, m) == IF In(L, m) THEN AddAt(L, Pos(L, m), v) ELSE Nothing(<<0>>)
InsAfter(L, v, m)  == IF In(L, m) THEN AddAt(L, Pos(L, m) + 1, v) ELSE Nothing(<<0>>)
EInsBefore(m, v) == IF Owner(m) # 0 THEN AddAt(Owner(m), Pos(Owner(m), m), v) ELSE Nothing(<<0>>)
EInsAfter(m, v)  == IF Owner(m) # 0 THEN AddAt(Owner(m), Pos(Owner(m), m) + 1, v) ELSE Nothing(<<0>>)

(* Removal: returns the element's value in every case *)
Drop(L, e) == /\ seq' = [seq EXCEPT ![L] = Del(@, e)]
              /\ ret' = <<val[e]>>
              /\ UNCHANGED <<cfg, val, dead>>
Remove(L, e) == IF In(L, e) THEN Drop(L, e) ELSE Nothing(<<val[e]>>)
ERemove(e)   == IF Owner(e) # 0 THEN Drop(Owner(e), e) ELSE Nothing(<<val[e]>>)
Clear(L)     == /\ seq' = [seq EXCEPT ![L] = <<>>]
                /\ ret' = <<>>
                /\ UNCHANGED <<cfg, val, dead>>

(* Rearrangement *)
Rearr(L, s) == /\ seq' = [seq EXCEPT ![L] = s]
               /\ ret' = <<>>
               /\ UNCHANGED <<cfg, val, dead>>
MoveToFront(L, e) == IF In(L, e) THEN Rearr(L, <<e>> \o Del(seq[L], e)) ELSE Nothing(<<>>)
MoveToBack(L, e)  == IF In(L, e) THEN Rearr(L, Append(Del(seq[L], e), e)) ELSE Nothing(<<>>)
MoveBefore(L, e, m) == IF In(L, e) /\ In(L, m) /\ e # m
                       THEN Rearr(L, PutBefore(Del(seq[L], e), m, e)) ELSE Nothing(<<>>)
MoveAfter(L, e, m)  == IF In(L, e) /\ In(L, m) /\ e # m
                       THEN Rearr(L, PutAfter(Del(seq[L], e), m, e)) ELSE Nothing(<<>>)
Swap(L, a, b) == IF In(L, a) /\ In(L, b) /\ a # b
                 THEN Rearr(L, [i \in 1..Len(seq[L]) |->
                                  IF seq[L][i] = a THEN b ELSE IF seq[L][i] = b THEN a ELSE seq[L][i]])
                 ELSE Nothing(<<>>)
SetVal(e, v) == /\ val' = [val EXCEPT ![e] = v]
                /\ ret' = <<>>
                /\ UNCHANGED <<cfg, seq, dead>>

(* Bulk copies: new elements, numbered in list order *)
Ids(from, n) == [i \in 1..n |-> from + i]
AddBlock(L, i, vs, r) == /\ seq' = [seq EXCEPT ![L] = PutAt(@, i, Ids(N, Len(vs)))]
                         /\ val' = val \o vs
                         /\ ret' = r
                         /\ UNCHANGED <<cfg, dead>>
PushBackList(L, M)  == AddBlock(L, Len(seq[L]) + 1, Vals(seq[M]), <<>>)
PushFrontList(L, M) == AddBlock(L, 1, Vals(seq[M]), <<>>)

(* Marked bulk copy: exactly the source's values directly after the mark.  The order of the copies is  *)
(* not specified (the code inserts them reversed or in order depending on the variant): o is the order *)
(* observed.                                                                                          *)
ListTo(L, M, m, o) == IF In(L, m) THEN /\ SameBag(o, Vals(seq[M]))
                                       /\ AddBlock(L, Pos(L, m) + 1, o, o)
                      ELSE Nothing(<<>>)

(* Orders used with Sort: the key of a value is its quotient by 100 *)
Key(v) == v \div 100
LessThan(ord, a, b) == CASE ord = 1 -> Key(a) < Key(b)
                         [] ord = 2 -> Key(a) > Key(b)
                         [] ord = 3 -> Key(a) % 3 < Key(b) % 3
Sorted(ord, s) == \A i \in 1..(Len(s) - 1) : ~LessThan(ord, s[i + 1], s[i])

(* Sort: o is the observed resulting sequence of values. *)
Sort(L, ord, o) == /\ SameBag(o, Vals(seq[L]))
                   /\ Sorted(ord, o)
                   /\ dead' = dead \cup {seq[L][i] : i \in 1..Len(seq[L])}
                   /\ seq' = [seq EXCEPT ![L] = Ids(N, Len(o))]
                   /\ val' = val \o o
                   /\ ret' = o
                   /\ UNCHANGED cfg

(* Iteration stopped after n visits (n = 0: never stopped) *)
Visit(s, n) == IF n > 0 /\ n <= Len(s) THEN SubSeq(s, 1, n) ELSE s
Range(L, n)  == Nothing(Vals(Visit(seq[L], n)) \o <<IF n > 0 /\ n <= Len(seq[L]) THEN 0 ELSE 1>>)
(* Position lookup: the element at index i, none outside *)
Get(L, i) == Nothing(<<IF i >= 0 /\ i < Len(seq[L]) THEN seq[L][i + 1] ELSE 0>>)
ERange(e, n) == IF Owner(e) = 0 THEN Nothing(<<val[e]>>)
                ELSE LET s == seq[Owner(e)] IN Nothing(Vals(Visit(SubSeq(s, PosIn(s, e), Len(s)), n)))

Do(op, a, o) ==
  CASE op = "PushFront"   -> PushFront(a[1], a[2])
    [] op = "PushBack"    -> PushBack(a[1], a[2])
    [] op = "InsBefore"   -> InsBefore(a[1], a[2], a[3])
    [] op = "InsAfter"    -> InsAfter(a[1], a[2], a[3])
    [] op = "EInsBefore"  -> EInsBefore(a[1], a[2])
    [] op = "EInsAfter"   -> EInsAfter(a[1], a[2])
    [] op = "Remove"      -> Remove(a[1], a[2])
    [] op = "ERemove"     -> ERemove(a[1])
    [] op = "Clear"       -> Clear(a[1])
    [] op = "MoveToFront" -> MoveToFront(a[1], a[2])
    [] op = "MoveToBack"  -> MoveToBack(a[1], a[2])
    [] op = "MoveBefore"  -> MoveBefore(a[1], a[2], a[3])
    [] op = "MoveAfter"   -> MoveAfter(a[1], a[2], a[3])
    [] op = "Swap"        -> Swap(a[1], a[2], a[3])
    [] op = "SetVal"      -> SetVal(a[1], a[2])
    [] op = "PushBackList"    -> PushBackList(a[1], a[2])
    [] op = "PushFrontList"   -> PushFrontList(a[1], a[2])
    [] op = "PushBackListTo"  -> ListTo(a[1], a[2], a[3], o)
    [] op = "PushFrontListTo" -> ListTo(a[1], a[2], a[3], o)
    [] op = "Sort"        -> Sort(a[1], a[2], o)
    [] op = "Get"         -> Get(a[1], a[2])
    [] op = "Range"       -> Range(a[1], a[2])
    [] op = "ERange"      -> ERange(a[1], a[2])

-----------------------------------------------------------------------------
(* What the public interface shows after every operation.  Per list: forward ids, backward ids, ids by  *)
(* Get(-1..len), <<len, front, back>>, Slice.  Then per handle: next, prev, value.                       *)
NextOf(e) == LET L == Owner(e) IN IF L = 0 THEN 0 ELSE LET p == Pos(L, e) IN
             IF p = Len(seq[L]) THEN 0 ELSE seq[L][p + 1]
PrevOf(e) == LET L == Owner(e) IN IF L = 0 THEN 0 ELSE LET p == Pos(L, e) IN
             IF p = 1 THEN 0 ELSE seq[L][p - 1]
ListProj(L) == LET s == seq[L] IN
   << s, Rev(s), <<0>> \o s \o <<0>>,
      <<Len(s), IF s = <<>> THEN 0 ELSE s[1], IF s = <<>> THEN 0 ELSE s[Len(s)]>>, Vals(s) >>
HandleProj(e) == IF e \in dead \/ (cfg[1] = 0 /\ Owner(e) = 0) THEN <<-1>>
                 ELSE <<NextOf(e), PrevOf(e), val[e]>>
Proj == IF cfg[1] = 2 THEN Flat([L \in Lists |-> << <<Len(seq[L])>>, Vals(seq[L]), Rev(Vals(seq[L])) >>])
        ELSE Flat([L \in Lists |-> ListProj(L)]) \o [e \in 1..N |-> HandleProj(e)]

(* the same, without building it: linear in the number of handles *)
Listed == UNION {Elems(seq[L]) : L \in Lists}
ProjOK(s) == IF cfg[1] = 2 THEN s = Proj
             ELSE LET b == 5 * cfg[2]
                      listed == Listed
                  IN /\ Len(s) = b + N
                     /\ SubSeq(s, 1, b) = Flat([L \in Lists |-> ListProj(L)])
                     /\ \A L \in Lists : LET q == seq[L] m == Len(q) IN
                           \A i \in 1..m : s[b + q[i]] = <<IF i = m THEN 0 ELSE q[i + 1], IF i = 1 THEN 0 ELSE q[i - 1], val[q[i]]>>
                     /\ \A e \in 1..N : e \in listed \/ s[b + e] = IF e \in dead \/ cfg[1] = 0 THEN <<-1>> ELSE <<0, 0, val[e]>>

-----------------------------------------------------------------------------
(* Design properties *)
TypeOK == \A L \in Lists : \A i \in 1..Len(seq[L]) : seq[L][i] \in 1..N
OneListEach == \A L, M \in Lists : \A i \in 1..Len(seq[L]), j \in 1..Len(seq[M]) :
                  seq[L][i] = seq[M][j] => (L = M /\ i = j)
NeighboursInverse == \A e \in Handles : NextOf(e) # 0 => PrevOf(NextOf(e)) = e
DeadGone == \A e \in dead : Owner(e) = 0
Inv == TypeOK /\ OneListEach /\ NeighboursInverse /\ DeadGone
=============================================================================
