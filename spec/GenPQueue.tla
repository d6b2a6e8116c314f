------------------------------ MODULE GenPQueue ------------------------------
EXTENDS PQueue
CONSTANTS MaxN, NP
GenCfg == cfg \in {<<1>>, <<2>>}
(* distinct priorities, so that every Pop has one outcome *)
GenOps == (IF Len(bag) < MaxN THEN {<<"Push", <<p, 10 * p + 1>>, <<>>>> : p \in {q \in 1..NP : \A i \in 1..Len(bag) : bag[i][1] # q}} ELSE {})
     \cup (IF bag # <<>> THEN {<<"Pop", <<>>, CHOOSE x \in Elems(bag) : Top(x)>>} ELSE {})
=============================================================================
