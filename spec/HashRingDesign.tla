---------------------------- MODULE HashRingDesign ----------------------------
(***************************************************************************)
(* The ring algorithm itself: points (position, member) in clockwise order, *)
(* equal positions ordered by member; a key belongs to the first point at   *)
(* or after its position, wrapping around.  Checked for every placement of  *)
(* the points of NM members with R replicas on P positions: answers depend  *)
(* only on the member set, and changes move only the keys they must.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS NM, R, P
VARIABLES pos, mem, pts
M == 1..NM
Pos == 0..(P - 1)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
MinPt(S) == CHOOSE x \in S : \A y \in S : ~Before(y, x)
PointsOf(m) == {<<pos[m][r], m>> : r \in 1..R}
Owner(S, k) == LET after == {x \in S : x[1] >= k} IN IF after # {} THEN MinPt(after)[2] ELSE MinPt(S)[2]
Init == pos \in [M -> [1..R -> Pos]] /\ mem = {} /\ pts = {}
Add(m) == m \notin mem /\ mem' = mem \cup {m} /\ pts' = pts \cup PointsOf(m) /\ UNCHANGED pos
Remove(m) == m \in mem /\ mem' = mem \ {m} /\ pts' = UNION {PointsOf(x) : x \in mem \ {m}} /\ UNCHANGED pos
Next == \E m \in M : Add(m) \/ Remove(m)
Spec == Init /\ [][Next]_<<pos, mem, pts>>
OnlyMembers == mem # {} => \A k \in Pos : Owner(pts, k) \in mem
SetDetermined == pts = UNION {PointsOf(x) : x \in mem}
MinimalMoves == [][(mem # {} /\ mem' # {}) =>
                    \A k \in Pos : Owner(pts, k) # Owner(pts', k) =>
                        \/ mem \subseteq mem' /\ Owner(pts', k) \in mem' \ mem
                        \/ mem' \subseteq mem /\ Owner(pts, k) \in mem \ mem']_<<pos, mem, pts>>
=============================================================================
