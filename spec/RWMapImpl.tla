------------------------------ MODULE RWMapImpl ------------------------------
(***************************************************************************)
(* The algorithm behind rwmap.RWMap, one atomic access to shared memory    *)
(* per step: an immutable table read[m, am] that is looked at without      *)
(* lock, a table dirty that needs the lock mu and holds all keys when      *)
(* read.am, entries (slots) that both tables share, each holding a pointer *)
(* to a value, nil (deleted) or expunged (deleted and missing from dirty), *)
(* and a counter len.  Runs of accesses under mu to what only mu's holder  *)
(* touches are merged with a neighbouring atomic access.                   *)
(*                                                                         *)
(* Checked against RWMap.tla: lin is the set of all states the abstract    *)
(* map can be in, given the results returned so far; the algorithm is      *)
(* linearizable (C01), its Range never lies (C03), and Len is exact when   *)
(* nothing is in flight (C02) iff the invariants hold.  It shares no text  *)
(* with the code and binds to it only through RWMap.tla, against which     *)
(* recorded histories of the code are checked.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Scenes, SafeClear       \* SafeClear: Clear expunges the entries it drops
VARIABLES prog,     \* prog[t]: operations left to call
          cnt,      \* cnt[t]: operations called
          th,       \* th[t]: the operation thread t executes, its position and locals
          read, dirty, misses, mu, len, ent,
          lin
vars == <<prog, cnt, th, read, dirty, misses, mu, len, ent, lin>>

A == INSTANCE RWMap WITH cfg <- <<1>>, m <- 0, pend <- 0, rng <- 0

Keys == 1..2
None == 0 :> <<0, 0>>                       \* no dirty map
Nil == [v |-> 0, id |-> <<-1, 0>>]
Exp == [v |-> 0, id |-> <<-2, 0>>]
Live(p) == p # Nil /\ p # Exp
Empty == [k \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Idle == [pc |-> "idle"]

(*********************** the abstract states still possible ***********************)
LinOne(c, t) == LET x == A!Apply(c.m, c.pd[t].op, c.pd[t].a)
                IN [m |-> x.m, pd |-> [c.pd EXCEPT ![t].done = TRUE, ![t].r = x.r],
                    rg |-> [s \in DOMAIN c.rg |-> [seen |-> c.rg[s].seen \cup A!Pairs(x.m), gone |-> c.rg[s].gone \cup (Keys \ DOMAIN x.m)]]]
RECURSIVE Close(_)
Close(C) == LET D == C \cup UNION {{LinOne(c, t) : t \in {s \in DOMAIN c.pd : ~c.pd[s].done /\ c.pd[s].op # "Range"}} : c \in C}
            IN IF D = C THEN C ELSE Close(D)
LCall(t, op, a) == Close({[c EXCEPT !.pd = Put(@, t, [op |-> op, a |-> a, done |-> FALSE, r |-> <<>>]),
                                    !.rg = IF op = "Range" THEN Put(@, t, [seen |-> A!Pairs(c.m), gone |-> Keys \ DOMAIN c.m]) ELSE @] : c \in lin})
LRet(t, r) == {[c EXCEPT !.pd = Del(@, t)] : c \in {x \in lin : x.pd[t].done /\ x.pd[t].r = r}}
LVisit(t, k, v) == {c \in lin : <<k, v>> \in c.rg[t].seen}
LRangeEnd(t, vis) == {[c EXCEPT !.pd = Del(@, t), !.rg = Del(@, t)] : c \in {x \in lin : Keys \ vis \subseteq x.rg[t].gone}}

(*********************************** the steps ***********************************)
K(t) == th[t].a[1]
Id(t) == <<t, cnt[t]>>
New(t) == [v |-> th[t].a[Len(th[t].a)], id |-> Id(t)]
Has(f, k) == f # None /\ k \in DOMAIN f
Go(t, pc) == th' = [th EXCEPT ![t].pc = pc]
Done(t, r, d) == th' = [th EXCEPT ![t].pc = IF d = 0 THEN "ret" ELSE "len", ![t].r = r, ![t].d = d]
Mem == <<read, dirty, misses, mu, len, ent>>
Rest == <<prog, cnt, lin>>

Call(t) ==
  /\ th[t].pc = "idle" /\ prog[t] # <<>>
  /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
  /\ th' = [th EXCEPT ![t] = [pc |-> "look", op |-> Head(prog[t])[1], a |-> Head(prog[t])[2], e |-> 0, p |-> Nil, r |-> <<>>, d |-> 0, todo |-> {}, vis |-> {}, lck |-> FALSE, miss |-> FALSE]]
  /\ lin' = LCall(t, Head(prog[t])[1], Head(prog[t])[2])
  /\ UNCHANGED Mem

AddLen(t) == th[t].pc = "len" /\ len' = len + th[t].d /\ Go(t, "ret") /\ UNCHANGED <<read, dirty, misses, mu, ent>> /\ UNCHANGED Rest
Ret(t) ==
  /\ th[t].pc = "ret"
  /\ lin' = IF th[t].op = "Range" THEN LRangeEnd(t, th[t].vis) ELSE LRet(t, th[t].r)
  /\ th' = [th EXCEPT ![t] = Idle]
  /\ UNCHANGED <<prog, cnt>> /\ UNCHANGED Mem

NotFound(op) == IF op \in {"Load", "LoadAndDelete"} THEN <<0, 0>> ELSE <<0>>
Writers == {"Swap", "LoadOrStore"}

(* The first look at the read table, without lock *)
Look(t) ==
  /\ th[t].pc = "look" /\ th[t].op \notin {"Range", "Clear"}
  /\ IF K(t) \in DOMAIN read.m THEN th' = [th EXCEPT ![t].e = read.m[K(t)], ![t].pc = "ent"]
     ELSE IF read.am \/ th[t].op \in Writers THEN Go(t, "lock")
     ELSE Done(t, NotFound(th[t].op), 0)
  /\ UNCHANGED Mem /\ UNCHANGED Rest

(* One look that missed; the dirty table d is promoted when there were enough of them *)
MissLocked(d) ==
  IF misses + 1 < Cardinality(DOMAIN d) THEN misses' = misses + 1 /\ dirty' = d /\ UNCHANGED read
  ELSE misses' = 0 /\ dirty' = None /\ read' = [m |-> d, am |-> FALSE]

(* The second look of a reader: lock, look, unlock *)
LockedLook(t) ==
  /\ th[t].pc = "lock" /\ th[t].op \in {"Load", "LoadAndDelete", "CompareAndDelete"} /\ mu = 0
  /\ IF K(t) \in DOMAIN read.m THEN th' = [th EXCEPT ![t].e = read.m[K(t)], ![t].pc = "ent"] /\ UNCHANGED <<read, dirty, misses>>
     ELSE IF ~read.am THEN Done(t, NotFound(th[t].op), 0) /\ UNCHANGED <<read, dirty, misses>>
     ELSE /\ IF Has(dirty, K(t)) THEN th' = [th EXCEPT ![t].e = dirty[K(t)], ![t].pc = "ent"] ELSE Done(t, NotFound(th[t].op), 0)
          /\ MissLocked(IF th[t].op = "LoadAndDelete" THEN Del(dirty, K(t)) ELSE dirty)
  /\ UNCHANGED <<mu, len, ent>> /\ UNCHANGED Rest

(* The entry is at hand: the pointer is loaded, then exchanged *)
EntLoad(t) ==
  /\ th[t].pc = "ent"
  /\ LET p == ent[th[t].e]
         op == th[t].op
         cas == th' = [th EXCEPT ![t].p = p, ![t].pc = "xchg"]
         out(r) == IF th[t].lck THEN th' = [th EXCEPT ![t].r = r, ![t].pc = "unlock"] ELSE Done(t, r, 0)
     IN CASE op = "Load" -> out(IF Live(p) THEN <<p.v, 1>> ELSE <<0, 0>>)
          [] op = "LoadAndDelete" -> IF Live(p) THEN cas ELSE out(<<0, 0>>)
          [] op \in {"CompareAndDelete", "CompareAndSwap"} -> IF Live(p) /\ p.v = th[t].a[2] THEN cas ELSE out(<<0>>)
          [] op = "Swap" -> IF p = Exp THEN Go(t, "lock") ELSE cas
          [] op = "LoadOrStore" -> IF p = Exp THEN Go(t, "lock") ELSE IF p = Nil THEN cas ELSE out(<<p.v, 1>>)
  /\ UNCHANGED Mem /\ UNCHANGED Rest
EntXchg(t) ==
  /\ th[t].pc = "xchg"
  /\ IF ent[th[t].e] # th[t].p THEN Go(t, "ent") /\ UNCHANGED ent
     ELSE LET p == th[t].p
              op == th[t].op
              out(r, d) == IF th[t].lck THEN th' = [th EXCEPT ![t].r = r, ![t].d = d, ![t].pc = "unlock"] ELSE Done(t, r, d)
          IN /\ ent' = [ent EXCEPT ![th[t].e] = IF op \in {"LoadAndDelete", "CompareAndDelete"} THEN Nil ELSE New(t)]
             /\ CASE op = "LoadAndDelete" -> out(<<p.v, 1>>, -1)
                  [] op = "CompareAndDelete" -> out(<<1>>, -1)
                  [] op = "CompareAndSwap" -> out(<<1>>, 0)
                  [] op = "Swap" -> IF p = Nil THEN out(<<0, 0>>, 1) ELSE out(<<p.v, 1>>, 0)
                  [] op = "LoadOrStore" -> out(<<New(t).v, 0>>, 1)
  /\ UNCHANGED <<read, dirty, misses, mu, len>> /\ UNCHANGED Rest

(* A writer takes the lock and looks again *)
LockedWrite(t) ==
  /\ th[t].pc = "lock" /\ th[t].op \in Writers \cup {"CompareAndSwap"} /\ mu = 0 /\ mu' = t
  /\ LET k == K(t)
         w == th[t].op \in Writers
     IN IF k \in DOMAIN read.m THEN th' = [th EXCEPT ![t].e = read.m[k], ![t].lck = TRUE, ![t].pc = IF w THEN "unexp" ELSE "ent"]
        ELSE IF Has(dirty, k) THEN th' = [th EXCEPT ![t].e = dirty[k], ![t].lck = TRUE, ![t].miss = (th[t].op # "Swap"), ![t].pc = "ent"]
        ELSE IF ~w THEN th' = [th EXCEPT ![t].lck = TRUE, ![t].r = <<0>>, ![t].pc = "unlock"]
        ELSE IF ~read.am /\ dirty = None THEN th' = [th EXCEPT ![t].lck = TRUE, ![t].todo = DOMAIN read.m, ![t].pc = "copy"]
        ELSE th' = [th EXCEPT ![t].lck = TRUE, ![t].pc = "insert"]
  /\ IF th'[t].pc = "copy" THEN dirty' = Empty ELSE UNCHANGED dirty
  /\ UNCHANGED <<read, misses, len, ent>> /\ UNCHANGED Rest
Unexpunge(t) ==
  /\ th[t].pc = "unexp" /\ Go(t, "ent")
  /\ IF ent[th[t].e] = Exp THEN ent' = [ent EXCEPT ![th[t].e] = Nil] /\ dirty' = Put(dirty, K(t), th[t].e) ELSE UNCHANGED <<ent, dirty>>
  /\ UNCHANGED <<read, misses, mu, len>> /\ UNCHANGED Rest
Unlock(t) ==
  /\ th[t].pc = "unlock" /\ mu' = 0 /\ th' = [th EXCEPT ![t].pc = IF th[t].d = 0 THEN "ret" ELSE "len", ![t].lck = FALSE]
  /\ IF th[t].miss THEN MissLocked(dirty) ELSE UNCHANGED <<read, dirty, misses>>
  /\ UNCHANGED <<len, ent>> /\ UNCHANGED Rest
(* The read table is copied to a new dirty table, deleted entries are expunged *)
Copy(t) ==
  /\ th[t].pc = "copy"
  /\ IF th[t].todo = {} THEN Go(t, "insert") /\ UNCHANGED <<ent, dirty>>
     ELSE \E k \in th[t].todo :
            /\ th' = [th EXCEPT ![t].todo = @ \ {k}]
            /\ LET e == read.m[k]
               IN IF ent[e] = Nil THEN ent' = [ent EXCEPT ![e] = Exp] /\ UNCHANGED dirty
                  ELSE IF ent[e] = Exp THEN UNCHANGED <<ent, dirty>>
                  ELSE dirty' = Put(dirty, k, e) /\ UNCHANGED ent
  /\ UNCHANGED <<read, misses, mu, len>> /\ UNCHANGED Rest
Insert(t) ==
  /\ th[t].pc = "insert" /\ mu' = 0
  /\ read' = [read EXCEPT !.am = TRUE]
  /\ dirty' = Put(dirty, K(t), Id(t)) /\ ent' = Put(ent, Id(t), New(t))
  /\ th' = [th EXCEPT ![t].r = IF th[t].op = "Swap" THEN <<0, 0>> ELSE <<New(t).v, 0>>, ![t].d = 1, ![t].pc = "len", ![t].lck = FALSE]
  /\ UNCHANGED <<misses, len>> /\ UNCHANGED Rest

(* Range *)
RangeLook(t) ==
  /\ th[t].pc = "look" /\ th[t].op = "Range"
  /\ IF read.am THEN Go(t, "lock") ELSE th' = [th EXCEPT ![t].a = <<read.m>>, ![t].todo = DOMAIN read.m, ![t].pc = "iter"]
  /\ UNCHANGED Mem /\ UNCHANGED Rest
RangePromote(t) ==
  /\ th[t].pc = "lock" /\ th[t].op = "Range" /\ mu = 0
  /\ IF read.am THEN read' = [m |-> dirty, am |-> FALSE] /\ dirty' = None /\ misses' = 0 ELSE UNCHANGED <<read, dirty, misses>>
  /\ th' = [th EXCEPT ![t].a = <<read'.m>>, ![t].todo = DOMAIN read'.m, ![t].pc = "iter"]
  /\ UNCHANGED <<mu, len, ent>> /\ UNCHANGED Rest
RangeIter(t) ==
  /\ th[t].pc = "iter"
  /\ IF th[t].todo = {} THEN Go(t, "ret") /\ UNCHANGED lin
     ELSE \E k \in th[t].todo :
            LET p == ent[th[t].a[1][k]]
            IN IF Live(p) THEN th' = [th EXCEPT ![t].todo = @ \ {k}, ![t].vis = @ \cup {k}] /\ lin' = LVisit(t, k, p.v)
               ELSE th' = [th EXCEPT ![t].todo = @ \ {k}] /\ UNCHANGED lin
  /\ UNCHANGED Mem /\ UNCHANGED <<prog, cnt>>

(* Clear *)
ClearLook(t) ==
  /\ th[t].pc = "look" /\ th[t].op = "Clear"
  /\ IF DOMAIN read.m = {} /\ ~read.am THEN Done(t, <<>>, 0) ELSE Go(t, "lock")
  /\ UNCHANGED Mem /\ UNCHANGED Rest
ClearDrop(t) ==
  /\ th[t].pc = "lock" /\ th[t].op = "Clear" /\ mu = 0 /\ mu' = t
  /\ read' = [m |-> Empty, am |-> FALSE]
  /\ th' = [th EXCEPT ![t].todo = {read.m[k] : k \in DOMAIN read.m} \cup (IF dirty = None THEN {} ELSE {dirty[k] : k \in DOMAIN dirty}), ![t].pc = "expunge"]
  /\ UNCHANGED <<dirty, misses, len, ent>> /\ UNCHANGED Rest
ClearEntry(t) ==
  /\ th[t].pc = "expunge" /\ th[t].todo # {}
  /\ \E e \in th[t].todo : /\ th' = [th EXCEPT ![t].todo = @ \ {e}, ![t].d = IF Live(ent[e]) THEN @ - 1 ELSE @]
                           /\ ent' = IF SafeClear THEN [ent EXCEPT ![e] = Exp] ELSE ent
  /\ UNCHANGED <<read, dirty, misses, mu, len>> /\ UNCHANGED Rest
ClearEnd(t) ==
  /\ th[t].pc = "expunge" /\ th[t].todo = {}
  /\ dirty' = (IF dirty = None THEN None ELSE Empty) /\ misses' = 0 /\ mu' = 0 /\ len' = len + th[t].d
  /\ Go(t, "ret")
  /\ UNCHANGED <<read, ent>> /\ UNCHANGED Rest

Next == \E t \in Threads : \/ Call(t) \/ AddLen(t) \/ Ret(t) \/ Look(t) \/ LockedLook(t) \/ EntLoad(t) \/ EntXchg(t)
                           \/ LockedWrite(t) \/ Unexpunge(t) \/ Unlock(t) \/ Copy(t) \/ Insert(t)
                           \/ RangeLook(t) \/ RangePromote(t) \/ RangeIter(t)
                           \/ ClearLook(t) \/ ClearDrop(t) \/ ClearEntry(t) \/ ClearEnd(t)
Over == (\A t \in Threads : th[t].pc = "idle" /\ prog[t] = <<>>) /\ UNCHANGED vars       \* so that a deadlock is an error

(********************* scenes: where the concurrent part begins *********************)
E1 == <<0, 1>>
E2 == <<0, 2>>
V(k) == [v |-> 1, id |-> <<0, k>>]
S(r, am, d, x) == [read |-> [m |-> r, am |-> am], dirty |-> d, ent |-> x]
One == 1 :> E1
Both == (1 :> E1) @@ (2 :> E2)
SceneSet ==
  { S(Empty, FALSE, None, Empty),                                    \* a new map
    S(One, FALSE, None, E1 :> V(1)),                                 \* 1 promoted
    S(One, FALSE, None, E1 :> Nil),                                  \* and deleted
    S(Empty, TRUE, One, E1 :> V(1)),                                 \* 1 only in dirty
    S(Empty, TRUE, One, E1 :> Nil),                                  \* and deleted by CompareAndDelete
    S(One, TRUE, Both, (E1 :> V(1)) @@ (E2 :> V(2))),                \* 2 added since
    S(One, TRUE, 2 :> E2, (E1 :> Exp) @@ (E2 :> V(2))),              \* 1 expunged
    S(One, TRUE, Both, (E1 :> Nil) @@ (E2 :> V(2))),                 \* 1 deleted, not expunged
    S(Both, FALSE, None, (E1 :> V(1)) @@ (E2 :> V(2))),
    S(Both, FALSE, None, (E1 :> V(1)) @@ (E2 :> Nil)),
    S(Empty, FALSE, Empty, Empty) }                                  \* cleared
Content(rd, d, x) == LET f == IF rd.am THEN d ELSE rd.m
                     IN [k \in {y \in DOMAIN f : Live(x[f[y]])} |-> x[f[k]].v]

Init ==
  /\ \E s \in SceneSet :
       /\ read = s.read /\ dirty = s.dirty /\ ent = s.ent
       /\ len = Cardinality(DOMAIN Content(s.read, s.dirty, s.ent))
       /\ lin = {[m |-> Content(s.read, s.dirty, s.ent), pd |-> <<>>, rg |-> <<>>]}
  /\ misses = 0 /\ mu = 0 /\ prog \in Scenes
  /\ cnt = [t \in Threads |-> 0] /\ th = [t \in Threads |-> Idle]

(*********************************** properties ***********************************)
Quiet == \A t \in Threads : th[t].pc = "idle"
Linearizable == lin # {}                                                           \* C01, C03
LenExact == Quiet => /\ len = Cardinality(DOMAIN Content(read, dirty, ent))        \* C02
                     /\ \E c \in lin : c.m = Content(read, dirty, ent)
(* What the comments of the code promise of the tables whenever nobody holds the lock *)
Tables == mu = 0 =>
  /\ read.am => dirty # None
  /\ dirty # None => \A k \in DOMAIN read.m : IF ent[read.m[k]] = Exp THEN k \notin DOMAIN dirty ELSE k \in DOMAIN dirty /\ dirty[k] = read.m[k]
  /\ dirty # None => \A k \in DOMAIN dirty : ent[dirty[k]] # Exp
  /\ dirty = None => \A k \in DOMAIN read.m : ent[read.m[k]] # Exp
=============================================================================
