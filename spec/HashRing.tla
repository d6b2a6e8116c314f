------------------------------- MODULE HashRing -------------------------------
(***************************************************************************)
(* Consistent-hash rings (package hashring), seen through GetNode.  The    *)
(* hash function is not specified: the specification carries the            *)
(* assignments observed so far and demands that later ones agree.           *)
(* Assignments are sequences: the member id every probe key maps to, 0 for  *)
(* the zero value, -1 for anything that is no member id.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SeqLib, TLC
VARIABLES cfg,    \* <<mode, element type, replicas, rings, probe keys>>; mode 22: determinism, 23: disruption
          mem,    \* mem[H]: member set of ring H
          asg,    \* asg[H]: assignment last observed on ring H
          memo,   \* mode 22: set of <<member set, assignment>> observed on any ring, in any process
          ret
vars == <<cfg, mem, asg, memo, ret>>
View == <<cfg, mem>>
Rings == 1..cfg[4]
NK == cfg[5]
Zeros == [k \in 1..NK |-> 0]
Init0 == /\ mem = [H \in 1..cfg[4] |-> {}] /\ asg = [H \in 1..cfg[4] |-> Zeros]
         /\ memo = {} /\ ret = <<>>

(* an assignment s is possible for member set M *)
Member(M, s) == /\ Len(s) = NK
                /\ IF M = {} THEN s = Zeros ELSE Elems(s) \subseteq M
Agrees(M, s) == \A p \in memo : p[1] = M => p[2] = s
(* from member set M with assignment s to member set M2 with assignment t *)
Moved(M, s, M2, t) == \A k \in 1..NK :
     /\ (s[k] \notin M \ M2 /\ t[k] \notin M2 \ M) => s[k] = t[k]   \* only off removed members and onto added ones
     /\ t[k] \notin M \ M2                       \* nothing is left on a removed member
OK(H, M2, s) == IF cfg[1] = 22 THEN Member(M2, s) /\ Agrees(M2, s)
                ELSE Len(s) = NK /\ (mem[H] # {} /\ M2 # {} => Moved(mem[H], asg[H], M2, s))
(* o: the assignment observed after the change *)
Change(H, M2, o) == /\ OK(H, M2, o)
                    /\ mem' = [mem EXCEPT ![H] = M2] /\ asg' = [asg EXCEPT ![H] = o]
                    /\ memo' = IF cfg[1] = 22 THEN memo \cup {<<M2, o>>} ELSE memo
                    /\ ret' = o /\ UNCHANGED cfg
Do(op, a, o) ==
  LET H == a[1] ns == {a[i] : i \in 2..Len(a)} IN
  CASE op = "Add"    -> Change(H, mem[H] \cup ns, o)
    [] op = "Remove" -> Change(H, mem[H] \ ns, o)
    [] op = "Reset"  -> Change(H, ns, o)
    [] op = "New"    -> Change(H, {}, o)
    [] op = "Get"    -> Change(H, mem[H], o)
    (* the same members in a fresh ring of another process *)
    [] op = "Other"  -> /\ Member(ns, o) /\ Agrees(ns, o) /\ memo' = memo \cup {<<ns, o>>} /\ ret' = o /\ UNCHANGED <<cfg, mem, asg>>
    (* o: number of members that own at least one of many keys *)
    [] op = "Spread" -> /\ o = <<Cardinality(mem[H])>> /\ ret' = o /\ UNCHANGED <<cfg, mem, asg, memo>>
Proj == <<>>
ProjOK(s) == s = Proj
Inv == \A H \in Rings : mem[H] = {} \/ Len(asg[H]) = NK
=============================================================================
