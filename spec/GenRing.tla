------------------------------- MODULE GenRing -------------------------------
EXTENDS Ring
CONSTANTS MaxN, MaxStep
GenCfg == cfg \in {<<0>>, <<1>>}
Z0 == IF cfg[1] = 1 THEN {<<"Obs", <<>>, <<>>>>} ELSE {}
GenOps == (IF N < MaxN THEN {<<"New", <<n>>, <<>>>> : n \in {-1, 0} \cup 1..(MaxN - N)} \cup {<<"Zero", <<N + 1>>, <<>>>>} ELSE {})
     \cup {<<"Link", <<r, s>>, <<>>>> : r \in 1..N, s \in 0..N}
     \cup {<<"Unlink", <<r, n>>, <<>>>> : r \in 1..N, n \in -1..MaxStep}
     \cup {<<"Move", <<r, n>>, <<>>>> : r \in 1..N, n \in (0 - MaxStep)..MaxStep}
     \cup {<<"Len", <<r>>, <<>>>> : r \in 0..N} \cup {<<"Each", <<r>>, <<>>>> : r \in 0..N}
     \cup {<<"Next", <<r>>, <<>>>> : r \in 1..N} \cup {<<"Prev", <<r>>, <<>>>> : r \in 1..N}
     \cup {<<"SetVal", <<1, 11>>, <<>>>> : r \in {1} \cap (1..N)}
     \cup Z0
GInv == LinkIsSplice
=============================================================================
