------------------------------ MODULE RWMapLen ------------------------------
(***************************************************************************)
(* C02: whenever nothing is in flight, Len and SlowLen equal the number of *)
(* keys that can be loaded.  The event "quiet" carries the number of keys  *)
(* loaded (a) and the answers of Len, SlowLen and Len again (r).  It says  *)
(* nothing about what the operations before it answered.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES cfg,
          size,     \* keys present at the last quiet moment
          pend      \* operations in flight
vars == <<cfg, size, pend>>
Init0 == size = 0 /\ pend = {}

Call(t) == t \notin pend /\ pend' = pend \cup {t} /\ UNCHANGED <<cfg, size>>
Ret(t) == t \in pend /\ pend' = pend \ {t} /\ UNCHANGED <<cfg, size>>
Quiet(loaded, lens) ==
  /\ pend = {}
  /\ size' = loaded /\ size' >= 0
  /\ lens = <<size', size', size'>>
  /\ UNCHANGED <<cfg, pend>>

Step(e) == CASE e.e = "call" -> Call(e.t)
             [] e.e = "ret" -> Ret(e.t)
             [] e.e = "quiet" -> Quiet(e.a[1], e.r)
             [] OTHER -> FALSE
Silent(e) == FALSE /\ UNCHANGED vars
=============================================================================
