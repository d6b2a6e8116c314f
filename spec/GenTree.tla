------------------------------- MODULE GenTree -------------------------------
EXTENDS Tree
CONSTANTS P,       \* 24: links; 25: trees grown node by node, all questions; 26: any re-attachment, all questions
          MaxN, MaxB
GenCfg == cfg = IF P = 24 THEN <<0>> ELSE <<1>>
GenOps == (IF N < MaxN THEN {<<"New", <<>>, <<>>>>} ELSE {})
     \cup (IF P = 25 /\ N < MaxN THEN {<<"AddL", <<p>>, <<>>>> : p \in {q \in Nodes : lf[q] = 0}}
                                  \cup {<<"AddR", <<p>>, <<>>>> : p \in {q \in Nodes : rt[q] = 0}} ELSE {})
     \cup (IF P = 25 /\ N = 0 THEN {<<"Build", <<n, k>>, <<>>>> : n \in 0..MaxB, k \in 0..4} ELSE {})
     \cup (IF P \in {24, 26} /\ N = MaxN THEN UNION {{<<"SetL", <<p, c>>, <<>>>>, <<"SetR", <<p, c>>, <<>>>>} : p \in Nodes, c \in 0..N} ELSE {})
QInv == SameAnswers
GInv == \A p, c \in Nodes : p # c /\ c \notin Anc(p) <=> Legal(p, c)
=============================================================================
