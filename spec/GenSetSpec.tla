----------------------------- MODULE GenSetSpec -----------------------------
EXTENDS SetSpec
CONSTANTS NE, NR
GenCfg == cfg = <<0, NR>>
RS == 1..NR
GenOps == {<<op, <<R, x>>, <<>>>> : op \in {"Insert", "Push", "Remove", "ContainAndRemove", "Contain"}, R \in RS, x \in 1..NE}
     \cup {<<op, <<R>>, <<>>>> : op \in {"Clear", "IsEmpty", "New", "Push"}, R \in RS}
     \cup {<<op, <<R, Q>>, <<>>>> : op \in {"CopyFrom", "Clone", "Equal", "IsSubSet", "IsSupperSet"}, R \in RS, Q \in RS}
     \cup {<<op, <<D, R, Q>>, <<>>>> : op \in {"Difference", "SymmetricDifference", "Intersection", "Union"}, D \in RS, R \in RS, Q \in RS}
     \cup {<<"Union", <<D, R>>, <<>>>> : D \in RS, R \in RS}
     \cup {<<"Union", <<D, R, 1, 2>>, <<>>>> : D \in RS, R \in RS}
     \cup {<<"Push", <<R, 1, NE, 1>>, <<>>>> : R \in RS}
=============================================================================
