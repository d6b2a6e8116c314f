-------------------------------- MODULE GenVec --------------------------------
EXTENDS Vec
CONSTANTS P, MaxN, NV, Kinds
GenCfg == CASE P = 17 -> cfg = <<17, 0, 2, 0>>
            [] P = 18 -> cfg \in {<<18, k, 2, 0>> : k \in Kinds}
            [] P = 19 -> cfg = <<19, 0, 2, 1>>
X == 1..NV
s1 == reg[1]
n1 == Len(s1)
Ix == -1..(n1 + 1)
Fit(k) == n1 + k <= MaxN
In1 == {<<i, j>> \in (0..n1) \X (0..n1) : i <= j}
Ops17 ==
     (IF Fit(1) THEN {<<"Push", <<1, x>>, <<>>>> : x \in X} \cup {<<"Insert", <<1, i, x>>, <<>>>> : i \in Ix, x \in {1}} ELSE {})
  \cup (IF Fit(2) THEN {<<"Push", <<1, 1, 2>>, <<>>>>} \cup {<<"Insert", <<1, i, 2, 1>>, <<>>>> : i \in Ix} ELSE {})
  \cup (IF Fit(n1) THEN {<<"PushSelf", <<1>>, <<>>>>} ELSE {})
  \cup {<<op, <<1>>, <<>>>> : op \in {"Pop", "First", "Last", "Reverse", "Compact", "Clear", "Clip"}}
  \cup {<<op, <<1, i>>, <<>>>> : op \in {"Remove", "Get"}, i \in Ix}
  \cup {<<op, <<1, i, x>>, <<>>>> : op \in {"Set", "ConpareAndRemove"}, i \in Ix, x \in {1, NV}}
  \cup {<<op, <<1, i, j>>, <<>>>> : op \in {"Swap", "Cut", "SliceCut"}, i \in Ix, j \in Ix}
  \cup {<<"Delete", <<1, p[1], p[2]>>, <<>>>> : p \in In1}
  \cup {<<"Replace", <<1, p[1], p[2]>> \o t, <<>>>> : p \in In1, t \in {v \in {<<>>, <<1>>, <<2, 1>>} : Fit(Len(v))}}
  \cup UNION {{<<"InsertSelf", <<1, i, p[1], p[2]>>, <<>>>> : i \in 0..n1} : p \in {q \in In1 : Fit(q[2] - q[1])}}
  \cup UNION {{<<"ReplaceSelf", <<1, q[1], q[2], p[1], p[2]>>, <<>>>> : q \in In1} : p \in {q \in In1 : Fit(q[2] - q[1])}}
  \cup {<<"SplitOff", <<1, 2, i>>, <<>>>> : i \in Ix}
  \cup {<<"Grow", <<1, 4>>, <<>>>>}
  \cup {<<"Range", <<1, n>>, <<>>>> : n \in 0..2}
(* load both vectors, then every question about them *)
Seqs(n) == UNION {[1..k -> {100 * x : x \in X}] : k \in 0..n}
Ops18 == IF hint = 0 /\ reg[1] = <<>> /\ reg[2] = <<>> THEN {<<"Load", <<1>> \o t, <<>>>> : t \in Seqs(MaxN)}
         ELSE LET t == Stable(0, s1) IN
            {<<op, <<1>>, t>> : op \in {"Sort", "SortStable"}}
       \cup {<<op, <<1, c>>, Stable(c, s1)>> : op \in {"SortStableFunc"}, c \in 1..3}
       \cup {<<op, <<1, 100 * x>>, <<>>>> : op \in {"Search", "SearchAll", "Contains"}, x \in X}
       \cup {<<op, <<1, 100 * x, c>>, <<>>>> : op \in {"SearchFunc", "SearchAllFunc", "ContainsFunc"}, x \in X, c \in {3}}
       \cup UNION {IF SortedBy(c, s1) THEN {<<"BinarySearchFunc", <<1, 100 * x, c>>, <<>>>> : x \in X} ELSE {} : c \in {2, 3}}
       \cup {<<"IsSortedFunc", <<1, 2>>, <<>>>>}
       \cup (IF SortedBy(0, s1) THEN {<<"BinarySearch", <<1, 100 * x>>, <<>>>> : x \in X} ELSE {})
       \cup {<<"IsSorted", <<1>>, <<>>>>, <<"Max", <<1>>, IF s1 = <<>> THEN <<>> ELSE <<t[Len(t)]>>>>, <<"Min", <<1>>, IF s1 = <<>> THEN <<>> ELSE <<t[1]>>>>}
       \cup (IF reg[2] = <<>> /\ n1 <= 2 THEN {<<"Load", <<2>> \o u, <<>>>> : u \in Seqs(2)} ELSE {})
       \cup (IF reg[2] # <<>> \/ n1 <= 2 THEN {<<op, <<1, 2>>, <<>>>> : op \in {"Compare", "EqualVec", "EqualSlice"}}
                                                 \cup {<<op, <<1, 2, 3>>, <<>>>> : op \in {"CompareFunc", "EqualVecFunc", "EqualSliceFunc"}} ELSE {})
Ops19 ==
     (IF Fit(1) THEN {<<"Push", <<1, x>>, <<>>>> : x \in X} ELSE {})
  \cup (IF Len(reg[2]) < MaxN THEN {<<"Push", <<2, NV>>, <<>>>>} ELSE {})
  \cup UNION {{<<"Clone", <<R, 3 - R>>, <<>>>>, <<"CloneToSlice", <<R, 1>>, <<>>>>} : R \in {1, 2}}
  \cup {<<"SplitOff", <<1, 2, i>>, <<>>>> : i \in 0..n1}
  \cup {<<"CutH", <<1, p[1], p[2], 1>>, <<>>>> : p \in In1}
  \cup UNION {{<<"Set", <<R, i, NV>>, <<>>>> : i \in 0..(Len(reg[R]) - 1)} : R \in {1, 2}}
  \cup {<<"SetHold", <<1, i, NV>>, <<>>>> : i \in 0..(Len(hold[1]) - 1)}
  \cup {<<"SetLess", <<R, c>>, <<>>>> : R \in {1, 2}, c \in {2}}
  \cup {<<"SetEqual", <<R, c>>, <<>>>> : R \in {1, 2}, c \in {3}}
  \cup {<<"Remove", <<R, 0>>, <<>>>> : R \in {1, 2}}
  \cup {<<"Reverse", <<R>>, <<>>>> : R \in {1, 2}}
GenOps == CASE P = 17 -> Ops17 [] P = 18 -> Ops18 [] P = 19 -> Ops19
=============================================================================
