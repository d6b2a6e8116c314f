----------------------------- MODULE SyncCache -----------------------------
(***************************************************************************)
(* One synccache.SyncCache as its users see it (C04, C05, C06).            *)
(*                                                                         *)
(* Every successful Store or LoadOrStore puts a new entry in the cache;    *)
(* entries are numbered, and the number is the value the program stored.   *)
(* phys is what the cache holds, whether expired or not.  An entry lives   *)
(* until its expiration: ent[id].lo .. ent[id].hi is the interval in which *)
(* that moment lies (a store that the clock overtakes may have read the    *)
(* clock before or after).  Up to lo the entry is certainly live, after hi *)
(* certainly expired; in between both answers are allowed.                 *)
(*                                                                         *)
(* An operation first captures the entry it finds and may judge its expiry *)
(* at any later moment before it returns.  Whoever removes an entry owes   *)
(* one callback for it (owed) and has paid when the operation returns.     *)
(* Thread 0 is the background trimmer.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,     \* <<profile (property number), callback configured>>
          now,     \* milliseconds
          phys,    \* key -> entry id
          ent,     \* id -> [k, lo, hi, m, x]; m: when its expiration was last set; x: it was expired at some moment since the last quiet one
          pend,    \* thread -> operation in progress
          owed,    \* thread -> ids it still has to report
          open,    \* trimming is on
          since,   \* when it was switched on
          trimOK   \* the trimmer may still be at work

vars == <<cfg, now, phys, ent, pend, owed, open, since, trimOK>>

Keys == 1..3
Bound == 20000                        \* an expired entry of an open cache is reaped within this time
Track == cfg[1] # 4 /\ cfg[2] = 1     \* callbacks are accounted for

Empty == [x \in {} |-> 0]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
ValEq(x, y) == x = y \/ (x >= 90000 /\ y >= 90000)     \* numbers from 90000 stand for values that compare equal

MayLive(i) == now <= ent[i].hi
MayExp(i) == now > ent[i].lo
(* moments are integers; Far stands for every moment that no history reaches, -Far for every moment long before it *)
Far == 1000000000
Shift(x, d) == IF x >= Far \/ x <= 0 - Far THEN x ELSE IF x + d >= Far THEN Far ELSE IF x + d <= 0 - Far THEN 0 - Far ELSE x + d
Entry(k, lo, hi) == [k |-> k, lo |-> lo, hi |-> hi, m |-> now, x |-> now > lo]
Move(i, lo, hi) == [ent EXCEPT ![i].lo = lo, ![i].hi = hi, ![i].m = now, ![i].x = @ \/ now > lo]

Init0 == /\ now = 0 /\ phys = Empty /\ ent = Empty /\ pend = Empty /\ owed = [t \in {0} |-> {}]
         /\ open = TRUE /\ since = 0 /\ trimOK = TRUE

(* Owe(t, i): the callbacks owed after t removed entry i *)
Owe(t, i) == IF ~Track THEN owed ELSE IF t \in DOMAIN owed THEN [owed EXCEPT ![t] = @ \cup {i}] ELSE (t :> {i}) @@ owed

(* ---- what a Range or Clear in progress has to account for ---- *)
See(p, f, tm) ==     \* p: the operation; f: contents; tm: time
  IF p.op # "Range" THEN p
  ELSE LET s == p.seen \cup {f[k] : k \in DOMAIN f}
       IN [p EXCEPT !.seen = s,
                    !.lv = @ \cup {i \in s : tm <= ent'[i].hi},
                    !.gone = @ \cup (Keys \ DOMAIN f) \cup {ent'[i].k : i \in {j \in s : tm > ent'[j].lo}}]
SeeAll(q, f, tm) == [t \in DOMAIN q |-> See(q[t], f, tm)]

(* ---- calls ---- *)
Call(t, op, a) ==
  /\ t \notin DOMAIN pend
  /\ UNCHANGED <<cfg, now, phys, ent, owed>>
  /\ \E p \in {[op |-> op, a |-> a, t0 |-> now, cap |-> 0, lv0 |-> FALSE, done |-> FALSE, r |-> <<>>,
                seen |-> {}, lv |-> {}, gone |-> {}, vis |-> {}, stop |-> FALSE,
                snap |-> IF op = "Clear" THEN {phys[k] : k \in DOMAIN phys} ELSE {}]} :
       pend' = (t :> See(p, phys, now)) @@ pend
  /\ UNCHANGED <<open, since, trimOK>>

Finish(t, r) == [pend EXCEPT ![t].done = TRUE, ![t].r = r]
Upd(f, q) == phys' = f /\ pend' = SeeAll(q, f, now)      \* new contents, new operations in progress

None == <<0, 0>>

(* ---- operations taking effect ---- *)
Effect(t) ==
  LET p == pend[t]
      k == IF Len(p.a) > 0 THEN p.a[1] ELSE 0
      has == k \in DOMAIN phys
      i == phys[k]
  IN
  /\ ~p.done /\ UNCHANGED <<cfg, now>>
  /\ CASE p.op = "Store" ->
          /\ ent' = (p.a[2] :> Entry(k, Shift(p.t0, p.a[3]), Shift(now, p.a[3]))) @@ ent
          /\ Upd((k :> p.a[2]) @@ phys, Finish(t, <<>>)) /\ UNCHANGED <<owed, open, since, trimOK>>
       [] p.op = "Load" /\ p.cap = 0 ->
          /\ UNCHANGED <<phys, ent, owed, open, since, trimOK>>
          /\ pend' = IF has THEN [pend EXCEPT ![t].cap = i] ELSE Finish(t, None)
       [] p.op \in {"Load", "LoadAndDelete"} /\ p.cap # 0 ->
          /\ UNCHANGED <<phys, ent, owed, open, since, trimOK>>
          /\ \/ MayLive(p.cap) /\ pend' = Finish(t, <<p.cap, 1>>)
             \/ MayExp(p.cap) /\ pend' = Finish(t, None)
       [] p.op = "LoadOrStore" /\ p.cap = 0 ->
          IF has THEN pend' = [pend EXCEPT ![t].cap = i] /\ UNCHANGED <<phys, ent, owed, open, since, trimOK>>
          ELSE /\ ent' = (p.a[2] :> Entry(k, Shift(p.t0, p.a[3]), Shift(now, p.a[3]))) @@ ent
               /\ Upd((k :> p.a[2]) @@ phys, Finish(t, <<p.a[2], 0>>)) /\ UNCHANGED <<owed, open, since, trimOK>>
       [] p.op = "LoadOrStore" /\ p.cap # 0 ->
          /\ UNCHANGED <<phys, ent, owed, open, since, trimOK>>
          /\ \/ MayLive(p.cap) /\ pend' = Finish(t, <<p.cap, 1>>)
             \/ MayExp(p.cap) /\ pend' = [pend EXCEPT ![t].cap = 0]
       [] p.op = "Delete" ->
          /\ UNCHANGED <<ent, open, since, trimOK>>
          /\ IF has THEN Upd(Del(phys, k), Finish(t, <<>>)) /\ owed' = Owe(t, i)
             ELSE pend' = Finish(t, <<>>) /\ UNCHANGED <<phys, owed>>
       [] p.op = "LoadAndDelete" /\ p.cap = 0 ->
          /\ UNCHANGED <<ent, open, since, trimOK>>
          /\ IF has THEN Upd(Del(phys, k), [pend EXCEPT ![t].cap = i]) /\ owed' = Owe(t, i)
             ELSE pend' = Finish(t, None) /\ UNCHANGED <<phys, owed>>
       [] p.op = "CompareAndDelete" ->
          /\ UNCHANGED <<ent, open, since, trimOK>>
          /\ IF has /\ i = p.a[2] THEN Upd(Del(phys, k), Finish(t, <<1>>)) /\ owed' = Owe(t, i)
             ELSE pend' = Finish(t, <<0>>) /\ UNCHANGED <<phys, owed>>
       [] p.op = "CompareValueAndDelete" /\ p.cap = 0 ->
          /\ UNCHANGED <<phys, ent, owed, open, since, trimOK>>
          /\ pend' = IF has /\ ValEq(i, p.a[2]) THEN [pend EXCEPT ![t].cap = i] ELSE Finish(t, <<0>>)
       [] p.op = "CompareValueAndDelete" /\ p.cap # 0 /\ ~p.lv0 ->
          /\ UNCHANGED <<phys, ent, owed, open, since, trimOK>>
          /\ \/ MayLive(p.cap) /\ pend' = [pend EXCEPT ![t].lv0 = TRUE]
             \/ MayExp(p.cap) /\ pend' = Finish(t, <<0>>)
       [] p.op = "CompareValueAndDelete" /\ p.cap # 0 /\ p.lv0 ->
          /\ UNCHANGED <<ent, open, since, trimOK>>
          /\ IF has /\ i = p.cap THEN Upd(Del(phys, k), Finish(t, <<1>>)) /\ owed' = Owe(t, i)
             ELSE pend' = [pend EXCEPT ![t].cap = 0, ![t].lv0 = FALSE] /\ UNCHANGED <<phys, owed>>
       [] p.op = "Clear" ->
          /\ UNCHANGED <<ent, open, since, trimOK>>
          /\ \/ \E x \in DOMAIN phys : Upd(Del(phys, x), pend) /\ owed' = Owe(t, phys[x])
             \/ /\ \A x \in DOMAIN phys : phys[x] \notin p.snap
                /\ pend' = Finish(t, <<>>) /\ UNCHANGED <<phys, owed>>
       [] p.op = "AddExp" ->          \* a = <<key (unused), id, ms>>
          /\ ent' = Move(p.a[2], Shift(ent[p.a[2]].lo, p.a[3]), Shift(ent[p.a[2]].hi, p.a[3]))
          /\ Upd(phys, Finish(t, <<>>)) /\ UNCHANGED <<owed, open, since, trimOK>>
       [] p.op = "SetExp" ->          \* a = <<key (unused), id, absolute ms>>
          /\ ent' = Move(p.a[2], p.a[3], p.a[3])
          /\ Upd(phys, Finish(t, <<>>)) /\ UNCHANGED <<owed, open, since, trimOK>>
       [] p.op = "IsExpired" ->
          /\ UNCHANGED <<phys, ent, owed, open, since, trimOK>>
          /\ \/ MayLive(p.a[2]) /\ pend' = Finish(t, <<0>>)
             \/ MayExp(p.a[2]) /\ pend' = Finish(t, <<1>>)
       [] p.op = "Close" -> open' = FALSE /\ pend' = Finish(t, <<>>) /\ UNCHANGED <<phys, ent, owed, since, trimOK>>
       [] p.op = "Start" -> /\ open' = TRUE /\ trimOK' = TRUE /\ since' = (IF open THEN since ELSE now)
                            /\ pend' = Finish(t, <<>>) /\ UNCHANGED <<phys, ent, owed>>
       [] p.op = "Range" -> FALSE

(* An operation (or the trimmer) removes an expired entry it came across.  An entry that somebody revives by moving
   its expiration may still fall to a removal under way, so having been expired lately is enough. *)
Reap(t, k) ==
  /\ k \in DOMAIN phys /\ ent[phys[k]].x
  /\ owed' = Owe(t, phys[k])
  /\ UNCHANGED <<cfg, now, ent, open, since, trimOK>>
  /\ Upd(Del(phys, k), pend)

Reaps == \/ \E t \in DOMAIN pend : /\ pend[t].op \in {"Load", "LoadOrStore", "CompareValueAndDelete"} => Reap(t, pend[t].a[1])
                                   /\ pend[t].op \in {"Load", "LoadOrStore", "CompareValueAndDelete", "Range"}
                                   /\ pend[t].op = "Range" => \E k \in Keys : Reap(t, k)
         \/ trimOK /\ \E k \in Keys : Reap(0, k)

(* ---- observed events ---- *)
Ret(t, op, r) ==
  /\ t \in DOMAIN pend
  /\ IF op = "Range" THEN pend[t].stop \/ Keys \ pend[t].vis \subseteq pend[t].gone
     ELSE pend[t].done /\ pend[t].r = r
  /\ pend' = Del(pend, t)
  /\ UNCHANGED <<cfg, now, phys, ent, owed, open, since, trimOK>>

Visit(t, k, i, cont) ==
  /\ ~pend[t].stop /\ k \notin pend[t].vis /\ i \in pend[t].lv /\ ent[i].k = k
  /\ pend' = [pend EXCEPT ![t].vis = @ \cup {k}, ![t].stop = (cont = 0)]
  /\ UNCHANGED <<cfg, now, phys, ent, owed, open, since, trimOK>>

Callback(t, i) ==
  /\ t \in DOMAIN owed /\ i \in owed[t]
  /\ owed' = [owed EXCEPT ![t] = @ \ {i}]
  /\ UNCHANGED <<cfg, now, phys, ent, pend, open, since, trimOK>>

Done(t) ==   \* the operation of t has returned: nothing is owed
  /\ t \in DOMAIN owed => owed[t] = {}
  /\ owed' = IF t = 0 THEN owed ELSE Del(owed, t)
  /\ UNCHANGED <<cfg, now, phys, ent, pend, open, since, trimOK>>

Advance(d) ==
  /\ now' = now + d /\ ent' = [i \in DOMAIN ent |-> [ent[i] EXCEPT !.x = @ \/ now + d > ent[i].lo]]
  /\ UNCHANGED <<cfg, phys, owed, open, since, trimOK>>
  /\ pend' = SeeAll(pend, phys, now + d)

Idle ==      \* nothing is running, the trimmer included
  /\ cfg[1] = 6 =>
       /\ owed[0] = {}
       /\ open => \A k \in DOMAIN phys : \E x \in {ent[phys[k]].hi, ent[phys[k]].m, since} : now <= x + Bound
  /\ trimOK' = open
  /\ ent' = [i \in DOMAIN ent |-> [ent[i] EXCEPT !.x = now > ent[i].lo]]
  /\ UNCHANGED <<cfg, now, phys, pend, owed, open, since>>

Step(e) == CASE e.e = "call" -> Call(e.t, e.op, e.a)
             [] e.e = "ret" -> Ret(e.t, e.op, e.r)
             [] e.e = "visit" -> Visit(e.t, e.a[1], e.a[2], e.a[3])
             [] e.e = "cb" -> Callback(e.t, e.a[1])
             [] e.e = "done" -> Done(e.t)
             [] e.e = "adv" -> Advance(e.a[1])
             [] e.e = "idle" -> Idle
             [] OTHER -> FALSE
Silent(e) == e.e # "call" /\ ((\E t \in DOMAIN pend : Effect(t)) \/ Reaps)
=============================================================================
