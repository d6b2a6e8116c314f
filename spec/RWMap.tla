------------------------------- MODULE RWMap -------------------------------
(***************************************************************************)
(* The concurrent map rwmap.RWMap as its users see it (C01, C03): an       *)
(* ordinary map m on which every single-key operation and Clear takes      *)
(* effect at one instant between its call and its return, and a Range that *)
(* is not atomic but never lies.                                           *)
(*                                                                         *)
(* Threads call operations (Call), operations take effect (Lin), threads   *)
(* see the results (Ret).  A Range in progress remembers every pair that   *)
(* was in the map since its call (seen), every key that was absent at some *)
(* moment (gone) and the keys it has visited (vis).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,      \* <<variant of the key and value types>>
          m,        \* the map: a function from the present keys to their values
          pend,     \* pend[t]: the operation thread t is executing
          rng       \* rng[t]: what the Range of thread t has to account for

vars == <<cfg, m, pend, rng>>

Keys == 1..3
NaN == 9                                    \* stands for a NaN when the values are floats (variant 6)
Eq(x, y) == x = y /\ ~(cfg[1] = 6 /\ x = NaN)

Empty == [k \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}

(* The sequential semantics: the map after op(a) on f, and its result *)
Apply(f, op, a) ==
  LET k == IF Len(a) > 0 THEN a[1] ELSE 0
      has == k \in DOMAIN f
      found == IF has THEN <<f[k], 1>> ELSE <<0, 0>>
  IN CASE op = "Load" -> [m |-> f, r |-> found]
       [] op = "Store" -> [m |-> Put(f, k, a[2]), r |-> <<>>]
       [] op = "LoadOrStore" -> IF has THEN [m |-> f, r |-> found] ELSE [m |-> Put(f, k, a[2]), r |-> <<a[2], 0>>]
       [] op = "LoadAndDelete" -> [m |-> Del(f, k), r |-> found]
       [] op = "Delete" -> [m |-> Del(f, k), r |-> <<>>]
       [] op = "Swap" -> [m |-> Put(f, k, a[2]), r |-> found]
       [] op = "CompareAndSwap" -> IF has /\ Eq(f[k], a[2]) THEN [m |-> Put(f, k, a[3]), r |-> <<1>>] ELSE [m |-> f, r |-> <<0>>]
       [] op = "CompareAndDelete" -> IF has /\ Eq(f[k], a[2]) THEN [m |-> Del(f, k), r |-> <<1>>] ELSE [m |-> f, r |-> <<0>>]
       [] op = "Clear" -> [m |-> Empty, r |-> <<>>]

Init0 == m = Empty /\ pend = <<>> /\ rng = <<>>

Witness(g) == [t \in DOMAIN rng |-> [rng[t] EXCEPT !.seen = @ \cup Pairs(g), !.gone = @ \cup (Keys \ DOMAIN g)]]

Call(t, op, a) ==
  /\ t \notin DOMAIN pend
  /\ pend' = (t :> [op |-> op, a |-> a, done |-> FALSE, r |-> <<>>]) @@ pend
  /\ rng' = IF op = "Range" THEN (t :> [seen |-> Pairs(m), gone |-> Keys \ DOMAIN m, vis |-> {}, stop |-> FALSE]) @@ rng ELSE rng
  /\ UNCHANGED <<cfg, m>>

Lin(t) ==
  /\ ~pend[t].done /\ pend[t].op # "Range"
  /\ \E x \in {Apply(m, pend[t].op, pend[t].a)} :
       m' = x.m /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = x.r] /\ rng' = Witness(x.m)
  /\ UNCHANGED cfg

Ret(t, r) ==
  /\ t \in DOMAIN pend
  /\ IF pend[t].op = "Range"
     THEN (rng[t].stop \/ Keys \ rng[t].vis \subseteq rng[t].gone) /\ rng' = [x \in DOMAIN rng \ {t} |-> rng[x]]
     ELSE pend[t].done /\ pend[t].r = r /\ UNCHANGED rng
  /\ pend' = [x \in DOMAIN pend \ {t} |-> pend[x]]
  /\ UNCHANGED <<cfg, m>>

Visit(t, k, v, cont) ==
  /\ t \in DOMAIN rng /\ ~rng[t].stop /\ k \notin rng[t].vis /\ <<k, v>> \in rng[t].seen
  /\ rng' = [rng EXCEPT ![t].vis = @ \cup {k}, ![t].stop = (cont = 0)]
  /\ UNCHANGED <<cfg, m, pend>>

(* For validating recorded histories: an observed event, and what may happen unobserved before it.  Letting
   operations take effect only just before a return or a visit loses nothing: a call enables no result. *)
Step(e) == CASE e.e = "call" -> Call(e.t, e.op, e.a)
             [] e.e = "ret" -> Ret(e.t, e.r)
             [] e.e = "visit" -> Visit(e.t, e.a[1], e.a[2], e.a[3])
             [] OTHER -> FALSE                  \* panic, deadlock, livelock, hang
Silent(e) == e.e \in {"ret", "visit"} /\ \E t \in DOMAIN pend : Lin(t)

TypeOK == DOMAIN m \subseteq Keys /\ DOMAIN rng \subseteq DOMAIN pend
=============================================================================
