------------------------------ MODULE SyncDesign ------------------------------
(***************************************************************************)
(* What SyncCache.tla promises by itself: all its behaviours with a few    *)
(* threads, keys, lifetimes and a clock.  Ghosts remember how entries      *)
(* came and went.                                                          *)
(***************************************************************************)
EXTENDS SyncCache
CONSTANTS Threads, MaxCalls, MaxNow, Lives, Opset, K
VARIABLES calls,
          over,     \* entries replaced by a store
          gone,     \* entries taken out in any other way
          cbs,      \* callbacks so far, in order
          inn       \* thread -> entries in the cache or with a lifetime left at some moment of its operation
dvars == <<vars, calls, over, gone, cbs, inn>>
Empty0 == [x \in {} |-> 0]

DInit == cfg = <<5, 1>> /\ Init0 /\ calls = 0 /\ over = {} /\ gone = {} /\ cbs = <<>> /\ inn = Empty0
Ids == {phys[k] : k \in DOMAIN phys}
IdsN == {phys'[k] : k \in DOMAIN phys'}
LiveN == {i \in DOMAIN ent' : now' <= ent'[i].hi}
(* entries that disappeared in this step: replaced when their key has another entry now *)
Ghost ==
  /\ over' = over \cup {i \in Ids \ IdsN : ent[i].k \in DOMAIN phys'}
  /\ gone' = gone \cup {i \in Ids \ IdsN : ent[i].k \notin DOMAIN phys'}
  /\ inn' = [t \in DOMAIN pend' |-> (IF t \in DOMAIN inn THEN inn[t] ELSE Ids \cap {i \in DOMAIN ent : now <= ent[i].hi}) \cup (IdsN \cap LiveN)]
Args(op, x) == CASE op \in {"Load", "Delete", "LoadAndDelete"} -> {<<k>> : k \in K}
                 [] op \in {"Store", "LoadOrStore"} -> {<<k, x, l>> : k \in K, l \in Lives}
                 [] op \in {"CompareAndDelete", "CompareValueAndDelete"} -> {<<ent[i].k, i>> : i \in DOMAIN ent}
                 [] op \in {"AddExp"} -> {<<0, i, l>> : i \in DOMAIN ent, l \in Lives}
                 [] OTHER -> {<<>>}
DCall == \E t \in Threads, op \in Opset : \E a \in Args(op, calls + 1) :
           calls < MaxCalls /\ t \notin DOMAIN owed /\ Call(t, op, a) /\ calls' = calls + 1 /\ UNCHANGED cbs
DEff == ((\E t \in DOMAIN pend : Effect(t)) \/ Reaps) /\ UNCHANGED <<calls, cbs>>
DVisit == \E t \in DOMAIN pend : pend[t].op = "Range" /\ (\E i \in pend[t].lv : Visit(t, ent[i].k, i, 1)) /\ UNCHANGED <<calls, cbs>>
DCb == \E t \in DOMAIN owed : \E i \in owed[t] : Callback(t, i) /\ cbs' = Append(cbs, i) /\ UNCHANGED calls
DRet == \E t \in DOMAIN pend : (t \in DOMAIN owed => owed[t] = {}) /\ Ret(t, pend[t].op, pend[t].r) /\ UNCHANGED <<calls, cbs>>
DDone == \E t \in DOMAIN owed \ {0} : t \notin DOMAIN pend /\ Done(t) /\ UNCHANGED <<calls, cbs>>
DTick == now < MaxNow /\ Advance(1) /\ UNCHANGED <<calls, cbs>>
DOver == calls = MaxCalls /\ DOMAIN pend = {} /\ UNCHANGED dvars
DNext == ((DCall \/ DEff \/ DVisit \/ DCb \/ DRet \/ DDone \/ DTick) /\ Ghost) \/ DOver

Seen == {cbs[j] : j \in DOMAIN cbs}
(* C05 *)
Once == Cardinality(Seen) = Len(cbs)
OnlyRemoved == Seen \subseteq gone /\ Seen \cap Ids = {}
AllReported == (DOMAIN pend = {} /\ \A t \in DOMAIN owed : owed[t] = {}) => gone = Seen
(* C04: what is handed out was in the cache, with a lifetime left, at some moment of the call (the two may be
   different moments); what was never expired nor deleted is there *)
Served == \A t \in DOMAIN pend : pend[t].done /\ pend[t].op \in {"Load", "LoadOrStore", "LoadAndDelete"} /\ pend[t].r # <<0, 0>> /\ pend[t].r[2] = 1
             => pend[t].r[1] \in inn[t]
Deleters == {"Delete", "LoadAndDelete", "CompareAndDelete", "CompareValueAndDelete", "Clear"}
LiveStays == \A i \in gone : ent[i].x \/ \E op \in Deleters : op \in Opset
=============================================================================
