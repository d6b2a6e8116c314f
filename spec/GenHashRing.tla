----------------------------- MODULE GenHashRing -----------------------------
(* Membership histories only; the driver executes them and the recorded assignments are validated. *)
EXTENDS HashRing
CONSTANTS P, NM
GenCfg == cfg = <<P, 0, 3, 1, 0>>
Sets == (SUBSET (1..NM)) \ {{}}
Ord(S) == SetSeq(S)
GenOps == {<<"Add", <<1>> \o Ord(S), <<>>>> : S \in Sets}
     \cup {<<"Remove", <<1>> \o Ord(S), <<>>>> : S \in {T \in Sets : T \cap mem[1] # {}}}
     \cup {<<"Reset", <<1>> \o Ord(S), <<>>>> : S \in SUBSET (1..NM)}
=============================================================================
