---------------------------- MODULE RefreshDesign ----------------------------
(***************************************************************************)
(* What RefreshCache.tla promises by itself: all its behaviours with a few *)
(* threads that call any operation, refresh functions that succeed, fail   *)
(* or panic, and a clock that moves at any moment.  Ghosts remember what   *)
(* was cached while an operation ran.                                      *)
(***************************************************************************)
EXTENDS RefreshCache
CONSTANTS Threads, MaxCalls, MaxNow, Ages, Opset
VARIABLES calls,    \* operations called so far
          made,     \* values successful refreshes produced, errors of failed ones
          during,   \* thread -> [d: values cached while its operation ran, e: errors cached]
          runs      \* threads whose refresh function is running
dvars == <<vars, calls, made, during, runs>>

DInit == /\ cfg \in Ages /\ Init0 /\ calls = 0 /\ made = [v |-> {}, e |-> {}] /\ during = [x \in {} |-> 0] /\ runs = {}
Ghost == during' = [t \in DOMAIN pend' |-> IF t \in DOMAIN during THEN [d |-> during[t].d \cup {data'}, e |-> during[t].e \cup {err'}, x |-> during[t].x \cup {lastErr'}]
                                           ELSE [d |-> {data'}, e |-> {err'}, x |-> {lastErr'}]]
DCall == \E t \in Threads, op \in Opset :
           /\ calls < MaxCalls /\ Call(t, op, <<t, 0>>) /\ calls' = calls + 1 /\ UNCHANGED <<made, runs>>
DSilent == (\E t \in DOMAIN pend : \E p \in {pend[t]} : Look(t, p) \/ Publish(t, p) \/ Clearing(t, p) \/ Atomic(t, p)) /\ UNCHANGED <<calls, made, runs>>
DBegin == \E t \in DOMAIN pend : RBegin(t, 1, t, data, 1) /\ runs' = runs \cup {t} /\ UNCHANGED <<calls, made>>
N == Cardinality(made.v) + Cardinality(made.e) + 1
DEnd == \E t \in runs, o \in 0..2 :
          /\ REnd(t, <<o, IF o = 0 THEN N ELSE 0, IF o = 1 THEN N ELSE 0>>)
          /\ runs' = runs \ {t} /\ UNCHANGED calls
          /\ made' = IF o = 0 THEN [made EXCEPT !.v = @ \cup {N}] ELSE IF o = 1 THEN [made EXCEPT !.e = @ \cup {N}] ELSE made
DRet == \E t \in DOMAIN pend : pend[t].pc = "done" /\ Ret(t, pend[t].op, pend[t].r) /\ UNCHANGED <<calls, made, runs>>
DTick == now < MaxNow /\ Advance(1) /\ UNCHANGED <<calls, made, runs>>
DOver == calls = MaxCalls /\ pend = [x \in {} |-> 0] /\ UNCHANGED dvars
DNext == ((DCall \/ DSilent \/ DBegin \/ DEnd \/ DRet \/ DTick) /\ Ghost) \/ DOver

(* C08: refreshes never overlap; whoever is about to refresh is alone *)
Exclusive == /\ Cardinality(runs) <= 1
             /\ \A t, u \in DOMAIN pend : t # u => ~(pend[t].pc \in {"ready", "run", "pub", "pub2", "pub3"} /\ pend[u].pc \in {"ready", "run", "pub", "pub2", "pub3"} /\ pend[t].op # "Clear" /\ pend[u].op # "Clear")
Answer(t) == pend[t].op \in {"Get", "Refresh"} /\ pend[t].pc = "done"
(* C07, C08: an answer is an outcome of some refresh that was in the cache during the call, or a panic passed on *)
Honest == \A t \in DOMAIN pend : Answer(t) =>
            LET r == pend[t].r
            IN \/ r = <<-2, -2>>
               \/ r[2] = 0 /\ r[1] \in made.v /\ r[1] \in during[t].d
               \/ r[2] # 0 /\ r[1] = 0 /\ r[2] \in made.e /\ r[2] \in during[t].e
(* C09: a failure never costs the last successful value *)
Kept == (data # 0) <=> \E v \in made.v : \A t \in DOMAIN pend : pend[t].out = <<>> \/ pend[t].out[2] # v \/ pend[t].pc # "pub"
Marks == (last # None => data \in made.v) /\ (lastErr # None => err \in made.e)
(* When nothing runs a value and an error are never both usable *)
OneOutcome == pend = [x \in {} |-> 0] => last = None \/ lastErr = None
=============================================================================
