------------------------------ MODULE ConcMap ------------------------------
(***************************************************************************)
(* Abstract concurrent map with "insert or overwrite".                     *)
(*                                                                         *)
(* Presence of keys is linearizable (as in ConcSet: one insert per key     *)
(* reports "new", found iff inserted).  Values are regular: a get returns  *)
(* a value whose insert was running during the get, or one completed       *)
(* before the get that was not overwritten, i.e. no other insert of the    *)
(* key began after its completion and completed before the get began.      *)
(*                                                                         *)
(* The module also contains the two-step implementation (claim the key by  *)
(* CAS, then store the value) as a model, and checks that every behaviour  *)
(* of it satisfies that guarantee -- and that the stronger guarantee,      *)
(* full linearizability of values, does NOT hold for it (control cfg).     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

\* ---- value guarantee, as a monitor -----------------------------------
\* mon = [cand: key -> completed and not overwritten values,
\*        pend: thread -> pending insert, get: thread -> allowed results]
NoPend == [on |-> FALSE, k |-> 0, v |-> 0, prior |-> {}]
NoGet == [on |-> FALSE, k |-> 0, allow |-> {}, must |-> FALSE]
MCallIns(m, t, k, v) ==
    [m EXCEPT !.pend[t] = [on |-> TRUE, k |-> k, v |-> v, prior |-> m.cand[k]],
              !.get = [u \in DOMAIN m.get |->
                         IF m.get[u].on /\ m.get[u].k = k
                         THEN [m.get[u] EXCEPT !.allow = @ \cup {v}] ELSE m.get[u]]]
MRetIns(m, t) ==
    LET p == m.pend[t] IN
    [m EXCEPT !.cand[p.k] = (@ \ p.prior) \cup {p.v}, !.pend[t] = NoPend]
MCallGet(m, t, k) ==
    [m EXCEPT !.get[t] = [on |-> TRUE, k |-> k, must |-> m.cand[k] # {},
          allow |-> m.cand[k] \cup {m.pend[u].v : u \in {w \in DOMAIN m.pend : m.pend[w].on /\ m.pend[w].k = k}}]]
MGetOk(m, t, v) == IF v # 0 THEN v \in m.get[t].allow ELSE ~ m.get[t].must
MRetGet(m, t) == [m EXCEPT !.get[t] = NoGet]

-----------------------------------------------------------------------------
CONSTANTS Thread, Key, MaxOps
VARIABLES keys,     \* claimed keys
          val,      \* key -> stored value, 0 = not stored yet
          pc, mon, n

vars == <<keys, val, pc, mon, n>>
Init == /\ keys = {} /\ val = [k \in Key |-> 0]
        /\ pc = [t \in Thread |-> [s |-> "idle", k |-> 0, v |-> 0]]
        /\ mon = [cand |-> [k \in Key |-> {}], pend |-> [t \in Thread |-> NoPend], get |-> [t \in Thread |-> NoGet]]
        /\ n = 0

CallIns(t, k) == /\ pc[t].s = "idle" /\ n < MaxOps /\ n' = n + 1
                 /\ pc' = [pc EXCEPT ![t] = [s |-> "claim", k |-> k, v |-> n + 1]]
                 /\ mon' = MCallIns(mon, t, k, n + 1)
                 /\ UNCHANGED <<keys, val>>
Claim(t) == /\ pc[t].s = "claim" /\ keys' = keys \cup {pc[t].k}
            /\ pc' = [pc EXCEPT ![t].s = "store"] /\ UNCHANGED <<val, mon, n>>
Store(t) == /\ pc[t].s = "store" /\ val' = [val EXCEPT ![pc[t].k] = pc[t].v]
            /\ pc' = [pc EXCEPT ![t].s = "ret"] /\ UNCHANGED <<keys, mon, n>>
RetIns(t) == /\ pc[t].s = "ret" /\ mon' = MRetIns(mon, t)
             /\ pc' = [pc EXCEPT ![t].s = "idle"] /\ UNCHANGED <<keys, val, n>>
CallGet(t, k) == /\ pc[t].s = "idle" /\ n < MaxOps /\ n' = n + 1
                 /\ pc' = [pc EXCEPT ![t] = [s |-> "read", k |-> k, v |-> 0]]
                 /\ mon' = MCallGet(mon, t, k) /\ UNCHANGED <<keys, val>>
Read(t) == /\ pc[t].s = "read"
           /\ pc' = [pc EXCEPT ![t].s = "got", ![t].v = IF pc[t].k \in keys THEN val[pc[t].k] ELSE 0]
           /\ UNCHANGED <<keys, val, mon, n>>
RetGet(t) == /\ pc[t].s = "got" /\ mon' = MRetGet(mon, t)
             /\ pc' = [pc EXCEPT ![t].s = "idle"] /\ UNCHANGED <<keys, val, n>>
Next == \E t \in Thread : (\E k \in Key : CallIns(t, k) \/ CallGet(t, k))
            \/ Claim(t) \/ Store(t) \/ RetIns(t) \/ Read(t) \/ RetGet(t)
Spec == Init /\ [][Next]_vars

GetsAllowed == \A t \in Thread : pc[t].s = "got" => MGetOk(mon, t, pc[t].v)
FinalValue == (\A t \in Thread : pc[t].s = "idle") =>
                  \A k \in Key : IF k \in keys THEN val[k] \in mon.cand[k] ELSE mon.cand[k] = {}
\* control: "the last insert to complete wins" is too strong for this protocol
LastWins == [][\A t \in Thread : (pc[t].s = "ret" /\ pc'[t].s = "idle") => val[pc[t].k] = pc[t].v]_vars
=============================================================================
