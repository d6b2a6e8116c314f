------------------------------- MODULE GenHeap -------------------------------
EXTENDS Heap
CONSTANTS MaxN, NV
GenCfg == cfg \in {<<1>>, <<2>>}
GenOps == (IF Len(bag) < MaxN THEN {<<"Push", <<v>>, <<>>>> : v \in 1..NV} ELSE {})
     \cup (IF bag # <<>> THEN {<<"Pop", <<>>, <<CHOOSE x \in Elems(bag) : Top(x)>>>>} ELSE {})
     \cup (IF bag = <<>> THEN UNION {{<<"Init", s, <<>>>> : s \in [1..n -> 1..NV]} : n \in 0..MaxN} ELSE {})
=============================================================================
