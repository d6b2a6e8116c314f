---------------------------- MODULE RefreshCache ----------------------------
(***************************************************************************)
(* One refresh cache (any of the three variants) as its users see it       *)
(* (C07, C08, C09): calls and returns, and the begin and end of every      *)
(* refresh function (rbegin, rend) and clear function (cbegin, cend).      *)
(*                                                                         *)
(* The cache holds the last successful value (data) and when it was        *)
(* obtained (last, -1: not usable), the last error (err) and when it       *)
(* occurred (lastErr, -1: none).  Times are in units of the history.       *)
(* Publishing an outcome takes several steps, during which other           *)
(* operations may look; operations judge an age at some moment they have   *)
(* lived through.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,      \* <<maximum age (negative: for ever), error age (positive: errors are cached)>>
          now, data, last, err, lastErr,
          since,    \* a success happened after err
          lock,     \* thread in the exclusive section, 0: none
          rfun, cfun, \* current refresh and clear function; 0: none
          pend      \* thread -> operation in progress

vars == <<cfg, now, data, last, err, lastErr, since, lock, rfun, cfun, pend>>

MaxAge == cfg[1]
ErrAge == cfg[2]
None == -1

Init0 == /\ now = 0 /\ data = 0 /\ last = None /\ err = 0 /\ lastErr = None /\ since = TRUE
         /\ lock = 0 /\ rfun = 1 /\ cfun = 0 /\ pend = [x \in {} |-> 0]

Age(tm, x) == IF tm > x THEN tm - x ELSE 0
ValFresh(tm) == last # None /\ (MaxAge < 0 \/ Age(tm, last) < MaxAge)
ErrFresh(tm) == lastErr # None /\ ErrAge > 0 /\ Age(tm, lastErr) < ErrAge

Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Set(t, p) == pend' = [pend EXCEPT ![t] = p]
Pc(t, s) == Set(t, [pend[t] EXCEPT !.pc = s])
Fin(t, r) == Set(t, [pend[t] EXCEPT !.pc = "done", !.r = r])

Cell == <<data, last, err, lastErr, since>>
Fns == <<rfun, cfun>>

Start(op) == CASE op = "Get" -> "val" [] op = "Refresh" -> "acq" [] op = "Clear" -> "old" [] op = "Raw" -> "val" [] OTHER -> "go"

Call(t, op, a) ==
  /\ t \notin DOMAIN pend
  /\ pend' = (t :> [op |-> op, a |-> a, pc |-> Start(op), r |-> <<>>, tms |-> {now}, old |-> 0, x |-> 0, z |-> FALSE,
                    fs |-> {rfun}, cs |-> {cfun}, out |-> <<>>]) @@ pend
  /\ UNCHANGED <<cfg, now, Cell, lock, Fns>>

(* ---- Get and Raw: look at the value, then at the error, or the other way round ---- *)
Look(t, p) ==
  /\ UNCHANGED <<cfg, now, Cell, Fns>>
  /\ CASE p.pc = "val" -> \E tm \in p.tms : (Pc(t, IF ValFresh(tm) THEN "data" ELSE "err") \/ Pc(t, IF ErrFresh(tm) THEN "e1" ELSE "e0")) /\ UNCHANGED lock
       [] p.pc = "e1" -> \E tm \in p.tms : Pc(t, IF ValFresh(tm) THEN "data" ELSE "rderr") /\ UNCHANGED lock
       [] p.pc = "e0" -> \E tm \in p.tms : Pc(t, IF ValFresh(tm) THEN "data" ELSE IF p.op = "Raw" THEN "raw" ELSE "acq") /\ UNCHANGED lock
       [] p.pc = "data" -> Fin(t, <<data, 0>>) /\ UNCHANGED lock
       [] p.pc = "err" -> \E tm \in p.tms : Pc(t, IF ErrFresh(tm) THEN "rderr" ELSE IF p.op = "Raw" THEN "raw" ELSE "acq") /\ UNCHANGED lock
       [] p.pc = "rderr" -> Fin(t, <<0, err>>) /\ UNCHANGED lock
       [] p.pc = "raw" -> Set(t, [p EXCEPT !.pc = "raw2", !.old = data]) /\ UNCHANGED lock
       [] p.pc = "raw2" -> \E e \in (IF since THEN {err, 0} ELSE {err}) : Fin(t, <<p.old, e>>) /\ UNCHANGED lock
       [] p.pc = "acq" -> /\ lock = 0 /\ lock' = t
                          /\ Set(t, [p EXCEPT !.pc = IF p.op = "Get" THEN "val2" ELSE "ready", !.tms = {now}])
       [] p.pc = "val2" -> \E tm \in p.tms : Pc(t, IF ValFresh(tm) THEN "data2" ELSE "err2") /\ UNCHANGED lock
       [] p.pc = "data2" -> Fin(t, <<data, 0>>) /\ lock' = 0
       [] p.pc = "err2" -> \E tm \in p.tms : Pc(t, IF ErrFresh(tm) THEN "rderr2" ELSE "ready") /\ UNCHANGED lock
       [] p.pc = "rderr2" -> Fin(t, <<0, err>>) /\ lock' = 0
       [] OTHER -> FALSE

(* ---- a refresh has ended: its outcome is published, first the value (error), then when it was obtained; the mark of
   the other kind of outcome disappears at any moment (z: it has) ---- *)
Publish(t, p) ==
  /\ UNCHANGED <<cfg, now, Fns>>
  /\ \/ CASE p.pc = "pub" /\ p.out[1] = 0 -> data' = p.out[2] /\ since' = TRUE /\ Pc(t, "pub2") /\ UNCHANGED <<last, err, lastErr, lock>>
          [] p.pc = "pub2" /\ p.out[1] = 0 -> /\ \E tm \in p.tms : last' = tm
                                              /\ IF p.z THEN lock' = 0 /\ Fin(t, <<p.out[2], 0>>) ELSE Pc(t, "pub3") /\ UNCHANGED lock
                                              /\ UNCHANGED <<data, since, err, lastErr>>
          [] p.pc = "pub3" /\ p.out[1] = 0 -> lastErr' = None /\ lock' = 0 /\ Fin(t, <<p.out[2], 0>>) /\ UNCHANGED <<data, since, last, err>>
          [] p.pc = "pub" /\ p.out[1] = 1 -> err' = p.out[3] /\ since' = FALSE /\ Pc(t, "pub2") /\ UNCHANGED <<data, last, lastErr, lock>>
          [] p.pc = "pub2" /\ p.out[1] = 1 -> /\ \E tm \in p.tms : lastErr' = tm
                                              /\ IF p.z THEN lock' = 0 /\ Fin(t, <<p.out[2], p.out[3]>>) ELSE Pc(t, "pub3") /\ UNCHANGED lock
                                              /\ UNCHANGED <<data, since, err, last>>
          [] p.pc = "pub3" /\ p.out[1] = 1 -> last' = None /\ lock' = 0 /\ Fin(t, <<p.out[2], p.out[3]>>) /\ UNCHANGED <<data, since, lastErr, err>>
          [] p.pc = "pub" /\ p.out[1] = 2 -> lock' = 0 /\ Fin(t, <<-2, -2>>) /\ UNCHANGED Cell   \* a panic changes nothing
          [] OTHER -> FALSE
     \/ /\ p.pc \in {"pub", "pub2"} /\ p.out[1] < 2 /\ ~p.z /\ (IF p.out[1] = 0 THEN lastErr ELSE last) # None
        /\ IF p.out[1] = 0 THEN lastErr' = None /\ UNCHANGED last ELSE last' = None /\ UNCHANGED lastErr
        /\ Set(t, [p EXCEPT !.z = TRUE]) /\ UNCHANGED <<data, err, since, lock>>

(* ---- Clear: the value is no longer usable from before the clear function runs ---- *)
ClearFns(p) == IF p.a[2] = 0 THEN p.cs ELSE IF p.a[2] < 0 THEN {0} ELSE {p.a[2]}
Choose(t, p) == \E f \in ClearFns(p) : Set(t, [p EXCEPT !.pc = IF f = 0 THEN "done" ELSE "cready", !.x = f, !.r = IF f = 0 THEN <<0>> ELSE <<>>])
Clearing(t, p) ==
  /\ UNCHANGED <<cfg, now, Fns, lock, data, err, lastErr, since>>
  /\ CASE p.pc = "old" -> \/ Set(t, [p EXCEPT !.pc = "zap", !.old = data]) /\ UNCHANGED last
                          \/ last' = None /\ Pc(t, "old2")
       [] p.pc = "zap" -> last' = None /\ Choose(t, p)
       [] p.pc = "old2" -> Choose(t, [p EXCEPT !.old = data]) /\ UNCHANGED last
       [] OTHER -> FALSE

(* ---- everything else happens at once ---- *)
NoteFns(q, f, c) == [t \in DOMAIN q |-> [q[t] EXCEPT !.fs = @ \cup {f}, !.cs = @ \cup {c}]]
Atomic(t, p) ==
  /\ p.pc = "go" /\ UNCHANGED <<cfg, now, Cell, lock>>
  /\ LET fin(r) == [pend EXCEPT ![t].pc = "done", ![t].r = r] IN
     CASE p.op = "SetRefresh" -> rfun' = p.a[1] /\ cfun' = cfun /\ pend' = NoteFns(fin(<<>>), p.a[1], cfun)
       [] p.op = "SetClear" -> cfun' = p.a[1] /\ rfun' = rfun /\ pend' = NoteFns(fin(<<>>), rfun, p.a[1])
       [] p.op = "GetRefresh" -> pend' = fin(<<rfun>>) /\ UNCHANGED Fns
       [] p.op = "GetClear" -> pend' = fin(<<cfun>>) /\ UNCHANGED Fns
       [] p.op \in {"Last", "LastTime"} -> pend' = fin(<<last>>) /\ UNCHANGED Fns
       [] p.op \in {"LastErr", "LastErrTime"} -> pend' = fin(<<lastErr>>) /\ UNCHANGED Fns
       [] p.op \in {"MaxAge", "MaxErrAge", "Data"} -> pend' = fin(<<1>>) /\ UNCHANGED Fns

(* ---- observed events ---- *)
Ret(t, op, r) == /\ t \in DOMAIN pend /\ pend[t].pc = "done" /\ pend[t].r = r
                 /\ pend' = Del(pend, t) /\ UNCHANGED <<cfg, now, Cell, lock, Fns>>

RBegin(t, f, arg, old, ok) ==
  /\ t \in DOMAIN pend /\ pend[t].pc = "ready" /\ ok = 1
  /\ f \in (IF pend[t].a[2] = 0 THEN pend[t].fs ELSE {pend[t].a[2]})
  /\ arg = pend[t].a[1] /\ old = data
  /\ Pc(t, "run") /\ UNCHANGED <<cfg, now, Cell, lock, Fns>>

REnd(t, out) == /\ pend[t].pc = "run" /\ Set(t, [pend[t] EXCEPT !.pc = "pub", !.out = out, !.tms = {now}])
                /\ UNCHANGED <<cfg, now, Cell, lock, Fns>>

CBegin(t, f, arg, old, ok) ==
  /\ t \in DOMAIN pend /\ pend[t].pc = "cready" /\ ok = 1 /\ f = pend[t].x /\ arg = pend[t].a[1] /\ old = pend[t].old
  /\ Pc(t, "run") /\ UNCHANGED <<cfg, now, Cell, lock, Fns>>

CEnd(t, out) == /\ pend[t].pc = "run" /\ Fin(t, <<IF out[1] = 2 THEN -2 ELSE out[2]>>)
                /\ UNCHANGED <<cfg, now, Cell, lock, Fns>>

Advance(d) == /\ now' = now + d /\ pend' = [t \in DOMAIN pend |-> [pend[t] EXCEPT !.tms = @ \cup {now + d}]]
              /\ UNCHANGED <<cfg, Cell, lock, Fns>>

Step(e) == CASE e.e = "call" -> Call(e.t, e.op, e.a)
             [] e.e = "ret" -> Ret(e.t, e.op, e.r)
             [] e.e = "rbegin" -> RBegin(e.t, e.a[1], e.a[2], e.a[3], e.a[4])
             [] e.e = "rend" -> REnd(e.t, e.a)
             [] e.e = "cbegin" -> CBegin(e.t, e.a[1], e.a[2], e.a[3], e.a[4])
             [] e.e = "cend" -> CEnd(e.t, e.a)
             [] e.e = "adv" -> Advance(e.a[1])
             [] OTHER -> FALSE
Silent(e) == e.e # "call" /\ \E t \in DOMAIN pend : \E p \in {pend[t]} : Look(t, p) \/ Publish(t, p) \/ Clearing(t, p) \/ Atomic(t, p)
=============================================================================
