------------------------------ MODULE GenDLList ------------------------------
(* Bounded generation of dllist behaviours; P selects the property profile. *)
EXTENDS DLList
CONSTANTS P, MaxN, NL
GenCfg == CASE P = 10 -> cfg \in {<<0, NL, 0>>, <<0, NL, 1>>}
            [] P = 11 -> cfg \in {<<1, NL, 0>>}
            [] P = 12 -> cfg \in {<<2, NL, 0>>}
LL == 1..cfg[2]
Members == {e \in 1..N : Owner(e) # 0}
H == IF P = 11 THEN Handles ELSE Members
New(n) == N + n <= MaxN
NV == N + 1
Own(L) == IF P = 11 THEN H ELSE {e \in Members : In(L, e)}
Pairs(L) == Own(L) \X Own(L)
OnList(L) ==
       (IF New(1) THEN {<<"PushFront", <<L, NV>>, <<>>>>, <<"PushBack", <<L, NV>>, <<>>>>}
                   \cup {<<op, <<L, NV, m>>, <<>>>> : op \in {"InsBefore", "InsAfter"}, m \in Own(L)} ELSE {})
  \cup {<<op, <<L, e>>, <<>>>> : op \in {"Remove", "MoveToFront", "MoveToBack"}, e \in Own(L)}
  \cup {<<op, <<L, p[1], p[2]>>, <<>>>> : op \in {"MoveBefore", "MoveAfter", "Swap"}, p \in Pairs(L)}
  \cup {<<"Clear", <<L>>, <<>>>>}
  \cup (IF P = 10 THEN {<<"Range", <<L, n>>, <<>>>> : n \in 0..2} \cup {<<"Get", <<L, i>>, <<>>>> : i \in 0..(Len(seq[L]) - 1)} ELSE {})
  \cup (IF P = 11 THEN {<<op, <<L, M, e>>, <<>>>> : op \in {"PushBackListTo", "PushFrontListTo"}, M \in LL \ {L}, e \in {x \in H : ~In(L, x)}} ELSE {})
OnElem ==
       (IF New(1) THEN {<<op, <<m, NV>>, <<>>>> : op \in {"EInsBefore", "EInsAfter"}, m \in H} ELSE {})
  \cup {<<"ERemove", <<e>>, <<>>>> : e \in H}
  \cup (IF P = 10 THEN {<<"SetVal", <<e, 50 + e>>, <<>>>> : e \in {x \in H \cap {1} : val[x] < 50}} \cup {<<"ERange", <<e, n>>, <<>>>> : e \in H, n \in 0..2} ELSE {})
(* C12: contents over few keys, then sorts and bulk copies *)
SortedBy(ord, s) == SortSeq(s, LAMBDA x, y : LessThan(ord, x, y))
Ops12 ==
       (IF New(1) THEN {<<"PushBack", <<L, 100 * k>>, <<>>>> : L \in LL, k \in 1..3} ELSE {})
  \cup UNION {{<<"Sort", <<L, ord>>, SortedBy(ord, Vals(seq[L]))>> : ord \in 1..2} : L \in {M \in LL : New(Len(seq[M]))}}
  \cup {<<op, <<p[1], p[2]>>, <<>>>> : op \in {"PushBackList", "PushFrontList"}, p \in {q \in LL \X LL : New(Len(seq[q[2]]))}}
GenOps == IF P = 12 THEN Ops12 ELSE UNION {OnList(L) : L \in LL} \cup OnElem
=============================================================================
