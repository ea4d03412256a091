----------------------------- MODULE GrowTable -----------------------------
(***************************************************************************)
(* The growing hash set at the granularity of its atomic operations        *)
(* (include/datastructures/Growing_LP.hxx, Concurrent_LP_Set):             *)
(*                                                                         *)
(*  insert:  refresh the handle if a newer table is being prepared (and    *)
(*           help to migrate), announce the insert, re-check, claim a slot *)
(*           by CAS, count it;  a full table makes the thread grow it.     *)
(*  grow:    create the next table, publish its epoch for writers, wait    *)
(*           for announced inserts, copy blocks of slots, wait for the     *)
(*           other helpers, publish the table, publish its epoch.          *)
(*  lookup:  refresh the handle if a newer table was published, probe.     *)
(*                                                                         *)
(* Guarded = FALSE is the protocol without the announcement; it loses keys *)
(* (GrowTable_unguarded.cfg is a control that TLC has to reject).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Thread, NKeys, Cap0, Block, MaxOps, MaxVersion, Guarded

Key == 1 .. NKeys
Cap(v) == Cap0 * (2 ^ v)
Hash(k, v) == (k * (2 * v + 1)) % Cap(v)
Version == 0 .. MaxVersion

VARIABLES
    slots,      \* version -> slot -> key or 0
    items,      \* version -> counter (incremented after the slot was claimed)
    copied,     \* version -> next block to migrate
    epR, epW,   \* published / being prepared
    tabR, tabW,
    helpers, writers,
    th,         \* thread -> local state
    ops,        \* operations started
    wins,       \* key -> inserts that reported "new"
    acked       \* keys whose insert has returned

vars == <<slots, items, copied, epR, epW, tabR, tabW, helpers, writers, th, ops, wins, acked>>
shared == <<slots, items, copied, epR, epW, tabR, tabW, helpers, writers>>

Idle == [pc |-> "idle", op |-> "-", k |-> 0, v |-> 0, w |-> 0, i |-> 0, e |-> 0, must |-> FALSE]

Init == /\ slots = [v \in Version |-> [s \in 0 .. Cap(v) - 1 |-> 0]]
        /\ items = [v \in Version |-> 0] /\ copied = [v \in Version |-> 0]
        /\ epR = 0 /\ epW = 0 /\ tabR = 0 /\ tabW = 0
        /\ helpers = 0 /\ writers = [p \in 0 .. 1 |-> 0]
        /\ th = [t \in Thread |-> Idle] /\ ops = 0
        /\ wins = [k \in Key |-> 0] /\ acked = {}

Goto(t, r) == th' = [th EXCEPT ![t] = r]
L(t) == th[t]
hist == <<ops, wins, acked>>

\* ------------------------------------------------------------------ operations start
Start(t) == /\ L(t).pc = "idle" /\ ops < MaxOps
            /\ \E o \in {"ins", "look"}, k \in Key :
                  Goto(t, [L(t) EXCEPT !.pc = IF o = "ins" THEN "i_check" ELSE "l_check",
                                       !.op = o, !.k = k, !.must = k \in acked])
            /\ ops' = ops + 1 /\ UNCHANGED <<shared, wins, acked>>

\* handle refresh: retried until table and epoch agree
Refresh(t, next) == /\ tabR = epR
                    /\ Goto(t, [L(t) EXCEPT !.v = tabR, !.pc = next])

\* ------------------------------------------------------------------ insert
ICheck(t) == /\ L(t).pc = "i_check"
             /\ \/ /\ epW <= L(t).v /\ Goto(t, [L(t) EXCEPT !.pc = "i_announce"])
                \/ /\ epW > L(t).v /\ Goto(t, [L(t) EXCEPT !.pc = "i_refresh", !.e = epW])
             /\ UNCHANGED <<shared, hist>>
IRefresh(t) == /\ L(t).pc = "i_refresh" /\ Refresh(t, "i_recheck") /\ UNCHANGED <<shared, hist>>
IRecheck(t) == /\ L(t).pc = "i_recheck"
               /\ Goto(t, [L(t) EXCEPT !.pc = IF L(t).e > L(t).v THEN "g_create" ELSE "i_announce"])
               /\ UNCHANGED <<shared, hist>>
IAnnounce(t) ==
    /\ L(t).pc = "i_announce"
    /\ IF Guarded THEN /\ writers' = [writers EXCEPT ![L(t).v % 2] = @ + 1]
                       /\ Goto(t, [L(t) EXCEPT !.pc = "i_confirm"])
                  ELSE /\ UNCHANGED writers /\ Goto(t, [L(t) EXCEPT !.pc = "i_load"])
    /\ UNCHANGED <<slots, items, copied, epR, epW, tabR, tabW, helpers, hist>>
IConfirm(t) ==
    /\ L(t).pc = "i_confirm"
    /\ Goto(t, [L(t) EXCEPT !.pc = IF epW # L(t).v THEN "i_withdraw" ELSE "i_load"])
    /\ UNCHANGED <<shared, hist>>
IWithdraw(t) ==
    /\ L(t).pc = "i_withdraw"
    /\ writers' = [writers EXCEPT ![L(t).v % 2] = @ - 1]
    /\ Goto(t, [L(t) EXCEPT !.pc = "i_check"])
    /\ UNCHANGED <<slots, items, copied, epR, epW, tabR, tabW, helpers, hist>>
ILoad(t) ==   \* fill level
    /\ L(t).pc = "i_load"
    /\ Goto(t, IF items[L(t).v] >= Cap(L(t).v) \div 2
               THEN [L(t) EXCEPT !.pc = "i_leave_full"]
               ELSE [L(t) EXCEPT !.pc = "i_probe", !.i = Hash(L(t).k, L(t).v)])
    /\ UNCHANGED <<shared, hist>>
IProbe(t) ==
    /\ L(t).pc = "i_probe"
    /\ LET s == slots[L(t).v][L(t).i] IN
       Goto(t, CASE s = L(t).k -> [L(t) EXCEPT !.pc = "i_leave_old"]
                 [] s # 0 /\ s # L(t).k -> [L(t) EXCEPT !.i = (@ + 1) % Cap(L(t).v)]
                 [] s = 0 -> [L(t) EXCEPT !.pc = "i_cas"])
    /\ UNCHANGED <<shared, hist>>
ICas(t) ==
    /\ L(t).pc = "i_cas"
    /\ LET s == slots[L(t).v][L(t).i] IN
       \/ /\ s = 0
          /\ slots' = [slots EXCEPT ![L(t).v][L(t).i] = L(t).k]
          /\ Goto(t, [L(t) EXCEPT !.pc = "i_count"])
       \/ /\ s = L(t).k /\ Goto(t, [L(t) EXCEPT !.pc = "i_leave_old"]) /\ UNCHANGED slots
       \/ /\ s # 0 /\ s # L(t).k
          /\ Goto(t, [L(t) EXCEPT !.pc = "i_probe", !.i = (@ + 1) % Cap(L(t).v)]) /\ UNCHANGED slots
    /\ UNCHANGED <<items, copied, epR, epW, tabR, tabW, helpers, writers, hist>>
ICount(t) ==
    /\ L(t).pc = "i_count"
    /\ items' = [items EXCEPT ![L(t).v] = @ + 1]
    /\ Goto(t, [L(t) EXCEPT !.pc = "i_leave_new"])
    /\ UNCHANGED <<slots, copied, epR, epW, tabR, tabW, helpers, writers, hist>>
ILeave(t) ==
    /\ L(t).pc \in {"i_leave_old", "i_leave_new", "i_leave_full"}
    /\ IF Guarded THEN writers' = [writers EXCEPT ![L(t).v % 2] = @ - 1] ELSE UNCHANGED writers
    /\ UNCHANGED <<slots, items, copied, epR, epW, tabR, tabW, helpers, ops>>
    /\ IF L(t).pc = "i_leave_full"
       THEN /\ Goto(t, [L(t) EXCEPT !.pc = "g_create"]) /\ UNCHANGED <<wins, acked>>
       ELSE /\ wins' = IF L(t).pc = "i_leave_new" THEN [wins EXCEPT ![L(t).k] = @ + 1] ELSE wins
            /\ acked' = acked \cup {L(t).k}
            /\ Goto(t, [Idle EXCEPT !.v = L(t).v])

\* ------------------------------------------------------------------ grow
GCreate(t) ==   \* under the mutex
    /\ L(t).pc = "g_create"
    /\ IF tabW = L(t).v THEN tabW + 1 <= MaxVersion /\ tabW' = tabW + 1 ELSE UNCHANGED tabW
    /\ Goto(t, [L(t) EXCEPT !.pc = "g_epoch", !.w = tabW'])
    /\ UNCHANGED <<slots, items, copied, epR, epW, tabR, helpers, writers, hist>>
GEpoch(t) ==
    /\ L(t).pc = "g_epoch"
    /\ epW' = IF epW = L(t).v THEN L(t).w ELSE epW
    /\ Goto(t, [L(t) EXCEPT !.pc = IF Guarded THEN "g_drain" ELSE "g_join"])
    /\ UNCHANGED <<slots, items, copied, epR, tabR, tabW, helpers, writers, hist>>
GDrain(t) ==
    /\ L(t).pc = "g_drain" /\ writers[L(t).v % 2] = 0
    /\ Goto(t, [L(t) EXCEPT !.pc = "g_join"]) /\ UNCHANGED <<shared, hist>>
GJoin(t) ==
    /\ L(t).pc = "g_join" /\ helpers' = helpers + 1
    /\ Goto(t, [L(t) EXCEPT !.pc = "g_block"])
    /\ UNCHANGED <<slots, items, copied, epR, epW, tabR, tabW, writers, hist>>
GBlock(t) ==
    /\ L(t).pc = "g_block"
    /\ copied' = [copied EXCEPT ![L(t).v] = IF @ >= Cap(L(t).v) THEN @ ELSE @ + Block]
    /\ Goto(t, IF copied[L(t).v] >= Cap(L(t).v) THEN [L(t) EXCEPT !.pc = "g_leave"]
               ELSE [L(t) EXCEPT !.pc = "g_copy", !.i = copied[L(t).v], !.e = copied[L(t).v] + Block])
    /\ UNCHANGED <<slots, items, epR, epW, tabR, tabW, helpers, writers, hist>>
\* copy of one slot: read it, then claim a slot of the new table (abstracted to one step: the
\* new table is written by migrating threads only, each key once)
Free(v, k, i) == CHOOSE j \in 0 .. Cap(v) - 1 :
                   /\ slots[v][(i + j) % Cap(v)] \in {0, k}
                   /\ \A m \in 0 .. j - 1 : slots[v][(i + m) % Cap(v)] \notin {0, k}
GCopy(t) ==
    /\ L(t).pc = "g_copy"
    /\ LET k == slots[L(t).v][L(t).i]
           h0 == Hash(k, L(t).w)
           at == (h0 + Free(L(t).w, k, h0)) % Cap(L(t).w)
       IN IF k = 0 THEN UNCHANGED <<slots, items>>
          ELSE /\ slots' = [slots EXCEPT ![L(t).w][at] = k]
               /\ items' = IF slots[L(t).w][at] = k THEN items ELSE [items EXCEPT ![L(t).w] = @ + 1]
    /\ Goto(t, IF L(t).i + 1 < L(t).e /\ L(t).i + 1 < Cap(L(t).v) THEN [L(t) EXCEPT !.i = @ + 1]
               ELSE [L(t) EXCEPT !.pc = "g_block"])
    /\ UNCHANGED <<copied, epR, epW, tabR, tabW, helpers, writers, hist>>
GLeave(t) ==
    /\ L(t).pc = "g_leave" /\ helpers' = helpers - 1
    /\ Goto(t, [L(t) EXCEPT !.pc = "g_wait"])
    /\ UNCHANGED <<slots, items, copied, epR, epW, tabR, tabW, writers, hist>>
GWait(t) == /\ L(t).pc = "g_wait" /\ helpers = 0
            /\ Goto(t, [L(t) EXCEPT !.pc = "g_publish"]) /\ UNCHANGED <<shared, hist>>
GPublish(t) ==
    /\ L(t).pc = "g_publish"
    /\ tabR' = IF tabR < L(t).w THEN L(t).w ELSE tabR
    /\ Goto(t, [L(t) EXCEPT !.pc = "g_epoch_r"])
    /\ UNCHANGED <<slots, items, copied, epR, epW, tabW, helpers, writers, hist>>
GEpochR(t) ==
    /\ L(t).pc = "g_epoch_r"
    /\ epR' = IF epR = L(t).v THEN L(t).w ELSE epR
    /\ Goto(t, [L(t) EXCEPT !.pc = "g_refresh"])
    /\ UNCHANGED <<slots, items, copied, epW, tabR, tabW, helpers, writers, hist>>
GRefresh(t) == /\ L(t).pc = "g_refresh" /\ Refresh(t, "i_check") /\ UNCHANGED <<shared, hist>>

\* ------------------------------------------------------------------ lookup
LCheck(t) == /\ L(t).pc = "l_check"
             /\ Goto(t, IF epR > L(t).v THEN [L(t) EXCEPT !.pc = "l_refresh"]
                        ELSE [L(t) EXCEPT !.pc = "l_probe", !.i = Hash(L(t).k, L(t).v)])
             /\ UNCHANGED <<shared, hist>>
LRefresh(t) == /\ L(t).pc = "l_refresh" /\ tabR = epR
               /\ Goto(t, [L(t) EXCEPT !.v = tabR, !.pc = "l_probe", !.i = Hash(L(t).k, tabR)])
               /\ UNCHANGED <<shared, hist>>
LProbe(t) ==
    /\ L(t).pc = "l_probe"
    /\ LET s == slots[L(t).v][L(t).i] IN
       Goto(t, CASE s = L(t).k -> [L(t) EXCEPT !.pc = "l_found"]
                 [] s = 0 -> [L(t) EXCEPT !.pc = "l_missing"]
                 [] s # 0 /\ s # L(t).k -> [L(t) EXCEPT !.i = (@ + 1) % Cap(L(t).v)])
    /\ UNCHANGED <<shared, hist>>
LReturn(t) == /\ L(t).pc \in {"l_found", "l_missing"}
              /\ Goto(t, [Idle EXCEPT !.v = L(t).v]) /\ UNCHANGED <<shared, hist>>

Next == \E t \in Thread :
    \/ Start(t) \/ ICheck(t) \/ IRefresh(t) \/ IRecheck(t) \/ IAnnounce(t) \/ IConfirm(t) \/ IWithdraw(t)
    \/ ILoad(t) \/ IProbe(t) \/ ICas(t) \/ ICount(t) \/ ILeave(t)
    \/ GCreate(t) \/ GEpoch(t) \/ GDrain(t) \/ GJoin(t) \/ GBlock(t) \/ GCopy(t) \/ GLeave(t) \/ GWait(t)
    \/ GPublish(t) \/ GEpochR(t) \/ GRefresh(t)
    \/ LCheck(t) \/ LRefresh(t) \/ LProbe(t) \/ LReturn(t)
Spec == Init /\ [][Next]_vars
Live == Spec /\ \A t \in Thread : WF_vars(Next /\ th'[t] # th[t])

\* ------------------------------------------------------------------ guarantees
OneWinner == \A k \in Key : wins[k] <= 1
NeverLost == \A t \in Thread : ~(L(t).pc = "l_missing" /\ L(t).must)
NothingInvented == \A t \in Thread : L(t).pc = "l_found" =>
                      (L(t).k \in acked \/ \E u \in Thread : th[u].op = "ins" /\ th[u].k = L(t).k)
Quiet == \A t \in Thread : th[t].pc = "idle"
Contents == Quiet => {slots[tabR][s] : s \in DOMAIN slots[tabR]} \ {0} = acked
ItemsExact == Quiet => items[tabR] = Cardinality(acked)
WritersExact == Guarded =>
    \A p \in 0 .. 1 : writers[p] = Cardinality({t \in Thread : L(t).v % 2 = p /\ L(t).pc \in
        {"i_confirm", "i_withdraw", "i_load", "i_probe", "i_cas", "i_count", "i_leave_old", "i_leave_new", "i_leave_full"}})
\* a table that is being migrated is not written any more
FrozenWhileCopied == Guarded =>
    \A t \in Thread : (L(t).pc \in {"i_cas", "i_probe", "i_load"}) => copied[L(t).v] = 0
Progress == \A t \in Thread : (th[t].pc # "idle") ~> (th[t].pc = "idle")
Symm == Permutations(Thread)
=============================================================================
