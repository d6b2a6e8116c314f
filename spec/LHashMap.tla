------------------------------ MODULE LHashMap ------------------------------
(* Linked hash map (package lhashmap): a map whose iteration order is recency of use. *)
EXTENDS Integers, Sequences, FiniteSets, SeqLib, TLC

VARIABLES cfg,   \* <<key/value representation used by the driver, initial capacity>>
          ent,   \* sequence of <<key, value>>, most recently used first; keys distinct
          ret
vars == <<cfg, ent, ret>>
View == <<cfg, ent>>

Keys == {ent[i][1] : i \in 1..Len(ent)}
PosK(k) == CHOOSE i \in 1..Len(ent) : ent[i][1] = k
Rest(k) == SelectSeq(ent, LAMBDA p : p[1] # k)

Init0 == ent = <<>> /\ ret = <<>>

Store(k, v) == /\ ent' = << <<k, v>> >> \o Rest(k)
               /\ ret' = <<>> /\ UNCHANGED cfg
StoreN(k, n, v) == /\ ent' = [i \in 1..n |-> <<k + n - i, v>>] \o SelectSeq(ent, LAMBDA p : p[1] < k \/ p[1] >= k + n)
                   /\ ret' = <<>> /\ UNCHANGED cfg
Load(k) == IF k \in Keys
           THEN /\ ent' = << ent[PosK(k)] >> \o Rest(k)
                /\ ret' = <<1, ent[PosK(k)][2]>> /\ UNCHANGED cfg
           ELSE ret' = <<0, 0>> /\ UNCHANGED <<cfg, ent>>
Remove(k) == ent' = Rest(k) /\ ret' = <<>> /\ UNCHANGED cfg
Clear == ent' = <<>> /\ ret' = <<>> /\ UNCHANGED cfg
(* Range stopped after n visits (0: not stopped): keys visited, in order *)
RangeN(n) == /\ ret' = [i \in 1..(IF n > 0 /\ n <= Len(ent) THEN n ELSE Len(ent)) |-> ent[i][1]]
             /\ UNCHANGED <<cfg, ent>>

Do(op, a, o) ==
  CASE op = "Store"  -> Store(a[1], a[2])
    (* the keys a[1], a[1]+1, ... a[2] of them, in turn *)
    [] op = "StoreN" -> StoreN(a[1], a[2], a[3])
    [] op = "Load"   -> Load(a[1])
    [] op = "Remove" -> Remove(a[1])
    [] op = "Clear"  -> Clear
    [] op = "Range"  -> RangeN(a[1])

Proj == << [i \in 1..Len(ent) |-> ent[i][1]], [i \in 1..Len(ent) |-> ent[i][2]], <<Len(ent)>> >>
ProjOK(s) == s = Proj

DistinctKeys == Cardinality(Keys) = Len(ent)
Inv == DistinctKeys
=============================================================================
