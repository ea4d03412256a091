------------------------------ MODULE ConcSet ------------------------------
(***************************************************************************)
(* Abstract concurrent set: the guarantee behind the growing hash set.     *)
(*                                                                         *)
(* A configuration is the abstract set plus, per thread, the operation it  *)
(* is executing.  An operation is announced (Call), takes effect           *)
(* atomically at some point (Lin) and reports its result (Ret).  Histories *)
(* of the implementation must be explainable by such a run: that is        *)
(* linearizability.                                                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

Idle == [st |-> "idle"]
Called(o, k) == [st |-> "called", op |-> o, k |-> k]
Done(o, k, r) == [st |-> "done", op |-> o, k |-> k, res |-> r]

\* effect of operation o(k) on set s : <<new set, result>>
Apply(s, o, k) ==
    CASE o = "i" -> [set |-> s \cup {k}, res |-> k \notin s]
      [] o = "c" -> [set |-> s, res |-> k \in s]
      [] o = "e" -> [set |-> s \ {k}, res |-> k \in s]      \* bit sets only

CanCall(c, t) == c.th[t].st = "idle"
CallCfg(c, t, o, k) == [c EXCEPT !.th[t] = Called(o, k)]

CanLin(c, t) == c.th[t].st = "called"
LinCfg(c, t) ==
    LET p == c.th[t]
        a == Apply(c.set, p.op, p.k)
    IN  [set |-> a.set, th |-> [c.th EXCEPT ![t] = Done(p.op, p.k, a.res)]]

CanRet(c, t, r) == c.th[t].st = "done" /\ c.th[t].res = r
RetCfg(c, t) == [c EXCEPT !.th[t] = Idle]

-----------------------------------------------------------------------------
(* The specification proper, model checked on its own (ConcSet.cfg).       *)
CONSTANTS Thread, Key, MaxCalls
VARIABLES cfg, calls, wins

vars == <<cfg, calls, wins>>
Init == /\ cfg = [set |-> {}, th |-> [t \in Thread |-> Idle]]
        /\ calls = 0
        /\ wins = [k \in Key |-> 0]
Call(t) == /\ CanCall(cfg, t) /\ calls < MaxCalls
           /\ \E o \in {"i", "c"}, k \in Key : cfg' = CallCfg(cfg, t, o, k)
           /\ calls' = calls + 1 /\ UNCHANGED wins
Lin(t) == CanLin(cfg, t) /\ cfg' = LinCfg(cfg, t) /\ UNCHANGED <<calls, wins>>
Ret(t) == \E r \in BOOLEAN :
           /\ CanRet(cfg, t, r) /\ cfg' = RetCfg(cfg, t)
           /\ wins' = IF cfg.th[t].op = "i" /\ r
                      THEN [wins EXCEPT ![cfg.th[t].k] = @ + 1] ELSE wins
           /\ UNCHANGED calls
Next == \E t \in Thread : Call(t) \/ Lin(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars

\* exactly one insert of each key wins
OneWinner == \A k \in Key :
    /\ wins[k] <= 1
    /\ (k \in cfg.set /\ \A t \in Thread : cfg.th[t].st = "idle") => wins[k] = 1
\* nothing is found that was not inserted, nothing is ever lost
OnlyGrows == [][cfg.set \subseteq cfg'.set]_vars
FoundImpliesWon == \A t \in Thread :
    (cfg.th[t].st = "done" /\ cfg.th[t].op = "c" /\ cfg.th[t].res) => cfg.th[t].k \in cfg.set
=============================================================================
