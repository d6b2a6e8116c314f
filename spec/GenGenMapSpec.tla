---------------------------- MODULE GenGenMapSpec ----------------------------
EXTENDS GenMapSpec
CONSTANTS NK, NV
GenCfg == cfg = <<0, 2>>
RS == 1..2
GenOps == {<<op, <<R, k, v>>, <<>>>> : op \in {"Store", "LoadOrStore", "LoadOrStoreFunc", "LoadAndStore"}, R \in RS, k \in 1..NK, v \in 1..NV}
     \cup {<<"LoadOrStoreFuncFx", <<1, k, 1, f, j, 2>>, <<>>>> : k \in 1..NK, f \in 1..3, j \in 1..NK}
     \cup {<<op, <<R, k>>, <<>>>> : op \in {"Load", "Delete", "LoadAndDelete"}, R \in RS, k \in 1..NK}
     \cup {<<op, <<R>>, <<>>>> : op \in {"Clear", "New"}, R \in RS}
     \cup {<<op, <<R, Q>>, <<>>>> : op \in {"Clone", "Share", "CopyTo", "CopyToRaw", "CopyFrom", "CopyFromRaw", "EqualFunc", "EqualMod"}, R \in RS, Q \in RS}
     \cup {<<"DeleteFunc", <<R, v>>, <<>>>> : R \in RS, v \in 0..(NV + 1)}
=============================================================================
