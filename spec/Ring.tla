-------------------------------- MODULE Ring --------------------------------
(* Circular lists (package ring).  Every element is in exactly one cycle: nxt is a permutation. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, SeqLib, TLC

VARIABLES cfg,   \* <<projection mode>>: 0 after every operation, 1 only by explicit observation (lazy initialisation)
          nxt,   \* nxt[e]: successor of element e
          val,   \* val[e]
          ret
vars == <<cfg, nxt, val, ret>>
View == <<cfg, nxt, val>>
N == Len(nxt)
Prv(e) == CHOOSE x \in 1..N : nxt[x] = e
(* the cycle of e under successor function f, as a sequence starting at e (a fold, which TLC evaluates eagerly) *)
CycOf(f, e) == FoldLeft(LAMBDA acc, i : IF f[acc[Len(acc)]] = e THEN acc ELSE Append(acc, f[acc[Len(acc)]]),
                        <<e>>, [i \in 1..Len(f) |-> i])
Cyc(e) == CycOf(nxt, e)
(* n places forward (backward if negative), computed modulo the cycle length *)
MoveBy(e, n) == LET c == Cyc(e) IN c[(n % Len(c)) + 1]

Init0 == nxt = <<>> /\ val = <<>> /\ ret = <<>>
Keep(r) == ret' = r /\ UNCHANGED <<cfg, nxt, val>>

New(n) == IF n <= 0 THEN Keep(<<0>>)
          ELSE /\ nxt' = nxt \o [i \in 1..n |-> IF i = n THEN N + 1 ELSE N + i + 1]
               /\ val' = val \o [i \in 1..n |-> 0]
               /\ ret' = <<N + 1>> /\ UNCHANGED cfg
Zero(v) == /\ nxt' = Append(nxt, N + 1) /\ val' = Append(val, v)
           /\ ret' = <<N + 1>> /\ UNCHANGED cfg
(* splice: make s the successor of r; what followed r now follows the old predecessor of s *)
Splice(r, s) == [nxt EXCEPT ![r] = s, ![Prv(s)] = nxt[r]]
Link(r, s) == IF s = 0 THEN Keep(<<nxt[r]>>)
              ELSE /\ nxt' = Splice(r, s)
                   /\ ret' = <<nxt[r]>> /\ UNCHANGED <<cfg, val>>
Unlink(r, n) == IF n <= 0 THEN Keep(<<0>>) ELSE Link(r, MoveBy(r, n + 1))
SetVal(e, v) == /\ val' = [val EXCEPT ![e] = v] /\ ret' = <<>> /\ UNCHANGED <<cfg, nxt>>

Vals(c) == [i \in 1..Len(c) |-> val[c[i]]]
(* Per element: successor, predecessor, length of its ring, values in order *)
FullProj == << nxt, [e \in 1..N |-> Prv(e)], [e \in 1..N |-> Len(Cyc(e))] >> \o [e \in 1..N |-> Vals(Cyc(e))]
Obs == Keep(Flat(FullProj))

Do(op, a, o) ==
  CASE op = "New"    -> New(a[1])
    [] op = "Zero"   -> Zero(a[1])
    [] op = "Link"   -> Link(a[1], a[2])
    [] op = "Unlink" -> Unlink(a[1], a[2])
    [] op = "Move"   -> Keep(<<MoveBy(a[1], a[2])>>)
    [] op = "Next"   -> Keep(<<nxt[a[1]]>>)
    [] op = "Prev"   -> Keep(<<Prv(a[1])>>)
    [] op = "Len"    -> Keep(<<IF a[1] = 0 THEN 0 ELSE Len(Cyc(a[1]))>>)
    [] op = "Each"   -> Keep(IF a[1] = 0 THEN <<>> ELSE Vals(Cyc(a[1])))
    [] op = "SetVal" -> SetVal(a[1], a[2])
    [] op = "Obs"    -> Obs
    (* successors, then predecessors of all elements: o is what was seen *)
    [] op = "Links"  -> /\ Len(o) = 2 * N /\ SubSeq(o, 1, N) = nxt
                        /\ \A e \in 1..N : o[N + nxt[e]] = e
                        /\ Keep(o)
Proj == IF cfg[1] = 0 THEN FullProj ELSE <<>>
ProjOK(s) == s = Proj

Permutation == {nxt[e] : e \in 1..N} = 1..N
Inv == Permutation
(* Link as documented: different rings are joined, within one ring the elements in between are cut out. *)
LinkIsSplice ==
  \A r, s \in 1..N :
    LET c == Cyc(r)  d == Cyc(s)
        n2 == Splice(r, s)
        Reach(e) == CycOf(n2, e)
    IN IF ~Has(c, s) THEN Reach(r) = <<r>> \o d \o Tail(c)
       ELSE LET j == IF s = r THEN Len(c) + 1 ELSE PosIn(c, s)
            IN /\ Reach(r) = <<r>> \o SubSeq(c, j, Len(c))
               /\ j > 2 => Reach(c[2]) = SubSeq(c, 2, j - 1)
=============================================================================
