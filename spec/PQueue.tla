------------------------------- MODULE PQueue -------------------------------
(* Priority queues (package pqueue): a bag of <<priority, value>>; Pop takes any item of extreme priority. *)
EXTENDS Integers, Sequences, FiniteSets, SeqLib, TLC
VARIABLES cfg,   \* <<1 min | 2 max>>
          bag, ret
vars == <<cfg, bag, ret>>
View == <<cfg, SortSeq(bag, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))>>
Before(p, q) == IF cfg[1] = 1 THEN p < q ELSE p > q
Minus(s, x) == LET p == PosIn(s, x) IN CutOut(s, p, p)
Top(x) == Has(bag, x) /\ \A i \in 1..Len(bag) : ~Before(bag[i][1], x[1])
Init0 == bag = <<>> /\ ret = <<>>
Push(p, v) == bag' = Append(bag, <<p, v>>) /\ ret' = <<>> /\ UNCHANGED cfg
Pop(o) == /\ Len(o) = 2 /\ Top(o)
          /\ bag' = Minus(bag, o) /\ ret' = o /\ UNCHANGED cfg
Do(op, a, o) == CASE op = "Push" -> Push(a[1], a[2])
                  [] op = "Pop"  -> Pop(o)
Proj == << <<Len(bag)>> >>
ProjOK(s) == s = Proj
Inv == bag # <<>> => \E x \in Elems(bag) : Top(x)
=============================================================================
