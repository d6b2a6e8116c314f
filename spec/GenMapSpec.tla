----------------------------- MODULE GenMapSpec -----------------------------
(* Map helper (package genmap): registers refer to stores (Go maps), so that sharing is visible. *)
EXTENDS Integers, Sequences, FiniteSets, SeqLib, TLC
VARIABLES cfg,   \* <<key/value representation, number of registers>>
          ref,   \* ref[R]: store the register refers to
          sto,   \* sto[i]: the map, a function from its keys to values
          ret
vars == <<cfg, ref, sto, ret>>
Empty == [k \in {} |-> 0]
M(R) == sto[ref[R]]
(* stores are compared by content and sharing pattern only *)
View == <<cfg, [R \in 1..cfg[2] |-> <<M(R), {Q \in 1..cfg[2] : ref[Q] = ref[R]}>>]>>
Init0 == /\ ref = [R \in 1..cfg[2] |-> R] /\ sto = [R \in 1..cfg[2] |-> Empty] /\ ret = <<>>
Keep(r) == ret' = r /\ UNCHANGED <<cfg, ref, sto>>
Put(R, m, r) == sto' = [sto EXCEPT ![ref[R]] = m] /\ ret' = r /\ UNCHANGED <<cfg, ref>>
Fresh(R, m) == /\ sto' = Append(sto, m) /\ ref' = [ref EXCEPT ![R] = Len(sto) + 1] /\ ret' = <<>> /\ UNCHANGED cfg
With(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Less1(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Over(m, n) == [x \in DOMAIN m \cup DOMAIN n |-> IF x \in DOMAIN n THEN n[x] ELSE m[x]]
Get(R, k) == IF k \in DOMAIN M(R) THEN M(R)[k] ELSE 0
Isin(R, k) == k \in DOMAIN M(R)
Do(op, a, o) ==
  CASE op = "Store"  -> Put(a[1], With(M(a[1]), a[2], a[3]), <<>>)
    [] op = "Load"   -> Keep(<<Get(a[1], a[2]), B(Isin(a[1], a[2]))>>)
    [] op = "Delete" -> Put(a[1], Less1(M(a[1]), a[2]), <<>>)
    [] op = "LoadOrStore" -> IF Isin(a[1], a[2]) THEN Keep(<<Get(a[1], a[2]), 1>>)
                             ELSE Put(a[1], With(M(a[1]), a[2], a[3]), <<a[3], 0>>)
    (* third result: how often the constructor ran *)
    [] op = "LoadOrStoreFunc" -> IF Isin(a[1], a[2]) THEN Keep(<<Get(a[1], a[2]), 1, 0>>)
                                 ELSE Put(a[1], With(M(a[1]), a[2], a[3]), <<a[3], 0, 1>>)
    (* the constructor itself changes the map first (a[4]: 1 stores a[6] under a[5], 2 deletes a[5], 3 clears) *)
    [] op = "LoadOrStoreFuncFx" ->
         LET m == M(a[1])
             m2 == CASE a[4] = 1 -> With(m, a[5], a[6]) [] a[4] = 2 -> Less1(m, a[5]) [] OTHER -> Empty
         IN IF Isin(a[1], a[2]) THEN Keep(<<Get(a[1], a[2]), 1, 0>>)
            ELSE Put(a[1], With(m2, a[2], a[3]), <<a[3], 0, 1>>)
    [] op = "LoadAndDelete" -> Put(a[1], Less1(M(a[1]), a[2]), <<Get(a[1], a[2]), B(Isin(a[1], a[2]))>>)
    [] op = "LoadAndStore"  -> Put(a[1], With(M(a[1]), a[2], a[3]), <<Get(a[1], a[2]), B(Isin(a[1], a[2]))>>)
    [] op = "Clear"  -> Put(a[1], Empty, <<>>)
    [] op = "New"    -> Fresh(a[1], Empty)
    [] op = "Nil"    -> Fresh(a[1], Empty)                         \* the nil map: empty, only read from here on
    [] op = "StoreN" -> Put(a[1], Over(M(a[1]), [k \in a[2]..(a[2] + a[3] - 1) |-> a[4]]), <<>>)
    (* iteration whose callback deletes the key it is given *)
    [] op = "RangeDelete" -> LET n == Cardinality(DOMAIN M(a[1]))
                                 stop == a[2] > 0 /\ a[2] <= n
                                 ks == SubSeq(o, 1, Len(o) - 1)
                             IN /\ Len(o) >= 1
                                /\ Cardinality(Elems(ks)) = Len(ks) /\ Elems(ks) \subseteq DOMAIN M(a[1])
                                /\ Len(ks) = (IF stop THEN a[2] ELSE n)
                                /\ o[Len(o)] = B(~stop)
                                /\ Put(a[1], [k \in DOMAIN M(a[1]) \ Elems(ks) |-> M(a[1])[k]], o)
    [] op = "Clone"  -> Fresh(a[1], M(a[2]))                       \* a[1] := a[2].Clone()
    [] op = "Share"  -> ref' = [ref EXCEPT ![a[1]] = ref[a[2]]] /\ ret' = <<>> /\ UNCHANGED <<cfg, sto>>   \* a[1] := From(a[2].Map())
    [] op = "CopyTo"    -> Put(a[2], Over(M(a[2]), M(a[1])), <<>>)
    [] op = "CopyToRaw" -> Put(a[2], Over(M(a[2]), M(a[1])), <<>>)
    [] op = "CopyFrom"    -> Put(a[1], Over(M(a[1]), M(a[2])), <<>>)
    [] op = "CopyFromRaw" -> Put(a[1], Over(M(a[1]), M(a[2])), <<>>)
    [] op = "EqualFunc" -> Keep(<<B(M(a[1]) = M(a[2]))>>)
    [] op = "EqualMod"  -> Keep(<<B(DOMAIN M(a[1]) = DOMAIN M(a[2]) /\ \A k \in DOMAIN M(a[1]) : M(a[1])[k] % 2 = M(a[2])[k] % 2)>>)
    [] op = "DeleteFunc" -> Put(a[1], [k \in {x \in DOMAIN M(a[1]) : ~(M(a[1])[x] >= a[2])} |-> M(a[1])[k]], <<>>)  \* values >= a[2]
    (* keys visited; result flag appended: 1 iff not stopped *)
    [] op = "Range"  -> LET n == Cardinality(DOMAIN M(a[1]))
                            stop == a[2] > 0 /\ a[2] <= n
                            ks == SubSeq(o, 1, Len(o) - 1)
                        IN /\ Len(o) >= 1
                           /\ Cardinality(Elems(ks)) = Len(ks) /\ Elems(ks) \subseteq DOMAIN M(a[1])
                           /\ Len(ks) = (IF stop THEN a[2] ELSE n)
                           /\ o[Len(o)] = B(~stop)
                           /\ Keep(o)
(* per register: sorted keys, values in that order (by Load), <<Len>>, sorted Keys(), sorted Values() *)
RP(R) == LET ks == SetSeq(DOMAIN M(R)) vs == [i \in 1..Len(ks) |-> M(R)[ks[i]]] IN
         << ks, vs, <<Len(ks)>>, ks, SortSeq(vs, LAMBDA x, y : x < y) >>
Proj == Flat([R \in 1..cfg[2] |-> RP(R)])
ProjOK(s) == s = Proj
Inv == \A R \in 1..cfg[2] : ref[R] \in 1..Len(sto)
=============================================================================
