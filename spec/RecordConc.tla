----------------------------- MODULE RecordConc -----------------------------
(***************************************************************************)
(* Threads adding to counters and measurement lists of one record.  A      *)
(* counter is incremented by one atomic step (or, in the control, by a     *)
(* load and a store).  A measurement claims the next slot of its list and  *)
(* fills it.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Ops, Atomic
VARIABLES cnt, size, slot, pc, reg, left, added
vars == <<cnt, size, slot, pc, reg, left, added>>
Init == /\ cnt = 0 /\ size = 0 /\ slot = [i \in {} |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Ops] /\ added = [sum |-> 0, vals |-> {}]
Idle(t) == pc[t] = "idle" /\ left[t] > 0
Take(t) == left' = [left EXCEPT ![t] = @ - 1]
IncAtomic(t) == /\ Atomic /\ Idle(t) /\ Take(t) /\ cnt' = cnt + t /\ added' = [added EXCEPT !.sum = @ + t]
                /\ UNCHANGED <<size, slot, pc, reg>>
IncLoad(t) == /\ ~Atomic /\ Idle(t) /\ reg' = [reg EXCEPT ![t] = cnt] /\ pc' = [pc EXCEPT ![t] = "inc"]
              /\ UNCHANGED <<cnt, size, slot, left, added>>
IncStore(t) == /\ pc[t] = "inc" /\ Take(t) /\ cnt' = reg[t] + t /\ pc' = [pc EXCEPT ![t] = "idle"]
               /\ added' = [added EXCEPT !.sum = @ + t] /\ UNCHANGED <<size, slot, reg>>
Claim(t) == /\ Idle(t) /\ reg' = [reg EXCEPT ![t] = size] /\ size' = size + 1 /\ pc' = [pc EXCEPT ![t] = "fill"]
            /\ UNCHANGED <<cnt, slot, left, added>>
Fill(t) == LET v == <<t, left[t]>> IN
           /\ pc[t] = "fill" /\ Take(t) /\ slot' = [i \in DOMAIN slot \cup {reg[t]} |-> IF i = reg[t] THEN v ELSE slot[i]]
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ added' = [added EXCEPT !.vals = @ \cup {v}] /\ UNCHANGED <<cnt, size, reg>>
Next == \E t \in Threads : IncAtomic(t) \/ IncLoad(t) \/ IncStore(t) \/ Claim(t) \/ Fill(t)
Spec == Init /\ [][Next]_vars
Quiet == \A t \in Threads : pc[t] = "idle"
Complete == Quiet => /\ cnt = added.sum /\ DOMAIN slot = {i \in 0 .. size : i < size}
                     /\ {slot[i] : i \in DOMAIN slot} = added.vals /\ size = Cardinality(added.vals)
=============================================================================
