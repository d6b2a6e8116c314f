-------------------------------- MODULE Heap --------------------------------
(* Binary heaps over a user-supplied container (package heap).  The layout is not specified: the state is  *)
(* the bag of elements, kept as a sequence.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SeqLib, TLC

VARIABLES cfg,   \* <<kind, or kind and element type>>; kind: 1 MinHeap, 2 MaxHeap, 3 custom container ordered by key (value \div 100), 4 its reverse
          bag,   \* elements inside, in the order they came in
          ret
vars == <<cfg, bag, ret>>
Key(v) == v \div 100
Before(x, y) == CASE cfg[1] = 1 -> x < y
                  [] cfg[1] = 2 -> x > y
                  [] cfg[1] = 3 -> Key(x) < Key(y)
                  [] cfg[1] = 4 -> Key(x) > Key(y)
Top(x) == /\ Has(bag, x)
          /\ \A i \in 1..Len(bag) : ~Before(bag[i], x)
Minus(s, x) == LET p == PosIn(s, x) IN CutOut(s, p, p)

View == <<cfg, SortSeq(bag, LAMBDA x, y : x < y)>>

Init0 == bag = <<>> /\ ret = <<>>
InitWith(vs) == bag' = vs /\ ret' = <<>> /\ UNCHANGED cfg
Push(v) == bag' = Append(bag, v) /\ ret' = <<>> /\ UNCHANGED cfg
(* o: the element observed to be popped *)
Pop(o) == /\ Len(o) = 1 /\ Top(o[1])
          /\ bag' = Minus(bag, o[1]) /\ ret' = o /\ UNCHANGED cfg
(* v: the element the container holds at index i when the call is made *)
RemoveAt(i, v) == /\ Has(bag, v)
                  /\ bag' = Minus(bag, v) /\ ret' = <<v>> /\ UNCHANGED cfg
FixAt(i, old, new) == /\ Has(bag, old)
                      /\ bag' = Append(Minus(bag, old), new) /\ ret' = <<>> /\ UNCHANGED cfg
Do(op, a, o) ==
  CASE op = "Init"   -> InitWith(a)
    [] op = "Push"   -> Push(a[1])
    [] op = "Pop"    -> Pop(o)
    [] op = "Remove" -> RemoveAt(a[1], a[2])
    [] op = "Fix"    -> FixAt(a[1], a[2], a[3])

(* Observation: <<the sequence obtained by popping a copy until empty, contents, <<Len>> >> *)
Proj == << SortSeq(bag, Before), SortSeq(bag, LAMBDA x, y : x < y), <<Len(bag)>> >>
ProjOK(s) == /\ SameBag(s[1], bag)
             /\ \A i \in 1..(Len(s[1]) - 1) : ~Before(s[1][i + 1], s[1][i])
             /\ s[2] = SortSeq(bag, LAMBDA x, y : x < y)
             /\ s[3] = <<Len(bag)>>
Inv == bag # <<>> => \E x \in Elems(bag) : Top(x)
=============================================================================
