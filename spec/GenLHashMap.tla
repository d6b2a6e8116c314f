----------------------------- MODULE GenLHashMap -----------------------------
EXTENDS LHashMap
CONSTANTS NK, NV
GenCfg == cfg \in {<<0, 0>>, <<1, 0>>, <<2, 3>>}
GenOps == {<<"Store", <<k, v>>, <<>>>> : k \in 1..NK, v \in 1..NV}
     \cup {<<"Load", <<k>>, <<>>>> : k \in 1..(NK + 1)}
     \cup {<<"Remove", <<k>>, <<>>>> : k \in 1..(NK + 1)}
     \cup {<<"Range", <<n>>, <<>>>> : n \in 0..NK}
     \cup {<<"Clear", <<>>, <<>>>>}
=============================================================================
