-------------------------------- MODULE Tree --------------------------------
(* Binary trees (package tree): a forest given by left and right children; the parent is derived. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, SeqLib, TLC
VARIABLES cfg,       \* <<mode>>: 0 links only (C24), 1 all queries about all nodes after every step, 2 single queries (C25)
          lf, rt,    \* lf[n], rt[n]: left / right child of node n, 0 if none; nodes are 1..Len(lf)
          ret
vars == <<cfg, lf, rt, ret>>
View == <<cfg, lf, rt>>
N == Len(lf)
Nodes == 1..N
Parents(n) == {p \in Nodes : lf[p] = n \/ rt[p] = n}
Par(n) == IF Parents(n) = {} THEN 0 ELSE CHOOSE p \in Parents(n) : TRUE
(* the chain of proper ancestors under parent function par, nearest first (a fold, which TLC evaluates eagerly) *)
ChainBy(par, n) == FoldLeft(LAMBDA acc, i : LET p == par[IF acc = <<>> THEN n ELSE acc[Len(acc)]]
                                            IN IF Len(acc) + 1 # i \/ p = 0 THEN acc ELSE Append(acc, p),
                            <<>>, [i \in 1..N |-> i])
ParF == [n \in Nodes |-> Par(n)]
Anc(n) == LET par == ParF IN Elems(ChainBy(par, n))
(* n.IsLeftRelation(nil), IsRightRelation, IsChildRelation, IsAncestorRelation, IsDescendantRelation: no node is meant *)
NilRel == <<0, 0, 0, 0, 0>>
Init0 == lf = <<>> /\ rt = <<>> /\ ret = <<>>
Keep(r) == ret' = r /\ UNCHANGED <<cfg, lf, rt>>

New == /\ lf' = Append(lf, 0) /\ rt' = Append(rt, 0) /\ ret' = <<N + 1>> /\ UNCHANGED cfg
(* a fresh node attached at an empty place *)
AddL(p) == /\ lf' = Append([lf EXCEPT ![p] = N + 1], 0) /\ rt' = Append(rt, 0) /\ ret' = <<N + 1>> /\ UNCHANGED cfg
AddR(p) == /\ rt' = Append([rt EXCEPT ![p] = N + 1], 0) /\ lf' = Append(lf, 0) /\ ret' = <<N + 1>> /\ UNCHANGED cfg
(* attaching c (0: nothing) to p: c leaves its old place *)
Off(f, c) == [n \in Nodes |-> IF c # 0 /\ f[n] = c THEN 0 ELSE f[n]]
Legal(p, c) == c = 0 \/ (c # p /\ c \notin Anc(p))
SetL(p, c) == /\ Legal(p, c)
              /\ lf' = [Off(lf, c) EXCEPT ![p] = c] /\ rt' = Off(rt, c) /\ ret' = <<lf[p]>> /\ UNCHANGED cfg
SetR(p, c) == /\ Legal(p, c)
              /\ rt' = [Off(rt, c) EXCEPT ![p] = c] /\ lf' = Off(lf, c) /\ ret' = <<rt[p]>> /\ UNCHANGED cfg
(* the value of node n, when it is created by itself: values repeat, nodes do not *)
ValOf(n) == (5 * n) % 3
(* BuildTree of n values: in breadth-first order each node's value and the positions of its children; a complete tree filled level by
   level.  k: 0 different values, 1 repeating ones (zero among them), 2 all zero, 3 pointers and 4 interfaces, some nil *)
BuildVal(i, k) == CASE k = 0 -> i [] k = 1 -> (7 * i) % 4 [] k = 2 -> 0 [] k \in {3, 4} -> IF i % 3 = 0 THEN 0 ELSE i
Build(n, k) == Keep(Flat([i \in 1..n |-> << BuildVal(i, k), IF 2 * i <= n THEN 2 * i ELSE 0, IF 2 * i + 1 <= n THEN 2 * i + 1 ELSE 0 >>]))

NewN(k) == /\ lf' = lf \o [i \in 1..k |-> 0] /\ rt' = rt \o [i \in 1..k |-> 0] /\ ret' = <<N + k>> /\ UNCHANGED cfg
(* k fresh nodes in a chain below p, going left (d = 0), right (d = 1) or alternating (d = 2, the first one left) *)
Chain(p, k, d) ==
  LET left(i) == d = 0 \/ (d = 2 /\ i % 2 = 1)       \* the i-th new node is a left child
      L2 == lf \o [i \in 1..k |-> IF i < k /\ left(i + 1) THEN N + i + 1 ELSE 0]
      R2 == rt \o [i \in 1..k |-> IF i < k /\ ~left(i + 1) THEN N + i + 1 ELSE 0]
  IN /\ IF left(1) THEN lf' = [L2 EXCEPT ![p] = N + 1] /\ rt' = R2 ELSE rt' = [R2 EXCEPT ![p] = N + 1] /\ lf' = L2
     /\ ret' = <<N + k>> /\ UNCHANGED cfg

-----------------------------------------------------------------------------
(* Questions about one node, as folds over at most N steps *)
Kid(f, n) == IF f[n] = 0 THEN <<>> ELSE <<f[n]>>
Steps == [i \in 1..N |-> i]
LevelOf(n) == FoldLeft(LAMBDA acc, i : IF i > Len(acc) THEN acc ELSE acc \o Kid(lf, acc[i]) \o Kid(rt, acc[i]), <<n>>, Steps)
DrawOf(n) == LET l == LevelOf(n) IN [i \in 1..Len(l) |-> ValOf(l[i])]     \* the values in the picture, layout aside
PreOf(n) == FoldLeft(LAMBDA acc, i : IF acc[2] = <<>> THEN acc
                                     ELSE LET x == acc[2][1] IN << Append(acc[1], x), Kid(lf, x) \o Kid(rt, x) \o Tail(acc[2]) >>,
                     << <<>>, <<n>> >>, Steps)[1]
HeightOf(n) == FoldLeft(LAMBDA acc, i : IF acc[1] = <<>> THEN acc
                                        ELSE << Flat([j \in 1..Len(acc[1]) |-> Kid(lf, acc[1][j]) \o Kid(rt, acc[1][j])]), acc[2] + 1 >>,
                        << <<n>>, -1 >>, [i \in 1..(N + 1) |-> i])[2]
Sib(par, n) == IF n = 0 \/ par[n] = 0 THEN 0 ELSE IF lf[par[n]] = n THEN rt[par[n]] ELSE lf[par[n]]
FactsOf(n) == LET par == ParF  p == par[n]  s == Sib(par, n)  u == Sib(par, p)  g == IF p = 0 THEN 0 ELSE par[p] IN
  << B(p = 0), B(lf[n] = 0 /\ rt[n] = 0), B(p # 0 /\ lf[p] = n), B(p # 0 /\ rt[p] = n),
     s, u, g, B(lf[n] # 0), B(rt[n] # 0), B(lf[n] # 0 \/ rt[n] # 0), B(lf[n] # 0 /\ rt[n] # 0),
     B(p # 0), B(s # 0), B(u # 0), B(g # 0), Len(ChainBy(par, n)), HeightOf(n) >> \o NilRel
RelOf(n, m) == LET par == ParF  s == Sib(par, n)  u == Sib(par, par[n])  g == IF par[n] = 0 THEN 0 ELSE par[par[n]]
                   under == Has(ChainBy(par, m), n) IN
  << B(lf[n] = m), B(rt[n] = m), B(lf[n] = m \/ rt[n] = m), B(u = m), B(s = m), B(g = m), B(under), B(under) >>

Do(op, a, o) ==
  CASE op = "New" -> New
    [] op = "NewN" -> NewN(a[1])
    [] op = "Chain" -> Chain(a[1], a[2], a[3])
    [] op = "Facts" -> Keep(FactsOf(a[1]))
    [] op = "Rel" -> Keep(RelOf(a[1], a[2]))
    [] op = "Dfs" -> Keep(PreOf(a[1]))
    [] op = "Bfs" -> Keep(LevelOf(a[1]))
    [] op = "Draw" -> Keep(DrawOf(a[1]))
    [] op = "AddL" -> AddL(a[1]) [] op = "AddR" -> AddR(a[1])
    [] op = "SetL" -> SetL(a[1], a[2]) [] op = "SetR" -> SetR(a[1], a[2])
    [] op = "Build" -> Build(a[1], a[2])

-----------------------------------------------------------------------------
(* All queries about all nodes.  par: parents; dep: depths; anc: ancestor sets; sub: subtrees. *)
Links == << lf, rt, ParF >>
Queries ==
  LET par == ParF
      chain == [n \in Nodes |-> ChainBy(par, n)]
      anc == [n \in Nodes |-> Elems(chain[n])]
      dep == [n \in Nodes |-> Len(chain[n])]
      sub == [n \in Nodes |-> {m \in Nodes : m = n \/ n \in anc[m]}]
      sib == [n \in Nodes |-> IF par[n] = 0 THEN 0 ELSE IF lf[par[n]] = n THEN rt[par[n]] ELSE lf[par[n]]]
      unc == [n \in Nodes |-> IF par[n] = 0 THEN 0 ELSE sib[par[n]]]
      gra == [n \in Nodes |-> IF par[n] = 0 THEN 0 ELSE par[par[n]]]
      Height(n) == CHOOSE h \in 0..N : (\E m \in sub[n] : dep[m] - dep[n] = h) /\ \A m \in sub[n] : dep[m] - dep[n] <= h
      (* pre-order of every subtree, built from the deepest nodes upwards *)
      pre == FoldLeft(LAMBDA acc, m : [acc EXCEPT ![m] = <<m>> \o (IF lf[m] = 0 THEN <<>> ELSE acc[lf[m]]) \o (IF rt[m] = 0 THEN <<>> ELSE acc[rt[m]])],
                      [m \in Nodes |-> <<>>], SetToSortSeq(Nodes, LAMBDA x, y : dep[x] > dep[y]))
      (* level order: the children of the nodes already listed, in turn *)
      Level(n) == FoldLeft(LAMBDA acc, i : IF i > Len(acc) THEN acc ELSE acc \o Kid(lf, acc[i]) \o Kid(rt, acc[i]), <<n>>, [i \in 1..N |-> i])
      Facts(n) == << B(par[n] = 0), B(lf[n] = 0 /\ rt[n] = 0), B(par[n] # 0 /\ lf[par[n]] = n), B(par[n] # 0 /\ rt[par[n]] = n),
                     sib[n], unc[n], gra[n], B(lf[n] # 0), B(rt[n] # 0), B(lf[n] # 0 \/ rt[n] # 0), B(lf[n] # 0 /\ rt[n] # 0),
                     B(par[n] # 0), B(sib[n] # 0), B(unc[n] # 0), B(gra[n] # 0), dep[n], Height(n) >> \o NilRel
      (* relation of node m to node n (m # n); the last two: n.IsAncestorRelation(m), n.IsDescendantRelation(m) *)
      Rel(n, m) == << B(lf[n] = m), B(rt[n] = m), B(lf[n] = m \/ rt[n] = m), B(unc[n] = m), B(sib[n] = m), B(gra[n] = m),
                      B(n \in anc[m]), B(n \in anc[m]) >>
  IN Flat([n \in Nodes |-> << Facts(n), pre[n], Level(n), LET l == Level(n) IN [i \in 1..Len(l) |-> ValOf(l[i])], Flat([m \in Nodes |-> IF m = n THEN <<>> ELSE Rel(n, m)]) >>])
Proj == CASE cfg[1] = 0 -> Links [] cfg[1] = 1 -> Links \o Queries [] cfg[1] = 2 -> <<>>
ProjOK(s) == s = Proj
(* the questions about one node agree with the definitions used for all nodes *)
SameAnswers == LET q == Queries IN \A n \in Nodes :
                 /\ q[5 * n - 4] = FactsOf(n) /\ q[5 * n - 3] = PreOf(n) /\ q[5 * n - 2] = LevelOf(n) /\ q[5 * n - 1] = DrawOf(n)
                 /\ q[5 * n] = Flat([m \in Nodes |-> IF m = n THEN <<>> ELSE RelOf(n, m)])

OneParent == \A n \in Nodes : Cardinality(Parents(n)) <= 1
OneSide == \A p \in Nodes : lf[p] # 0 => lf[p] # rt[p]
Acyclic == \A n \in Nodes : LET RECURSIVE Up(_, _)
                                Up(x, k) == IF Par(x) = 0 THEN TRUE ELSE IF k = 0 THEN FALSE ELSE Up(Par(x), k - 1)
                            IN Up(n, N)
Inv == OneParent /\ OneSide /\ Acyclic
=============================================================================
