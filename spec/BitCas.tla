------------------------------- MODULE BitCas -------------------------------
(***************************************************************************)
(* The concurrent bit set: bits share one word.  An operation reads the    *)
(* word, stops if its bit already has the wanted value, otherwise compares *)
(* and swaps the word it read and retries with the new value on failure;   *)
(* the counter is changed after a successful swap.  Plain = TRUE replaces  *)
(* the compare-and-swap by a plain store (a control).                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Thread, Bit, MaxOps, Plain
VARIABLES word, ones, pc, todo, abs, ops
vars == <<word, ones, pc, todo, abs, ops>>
\* todo[t]: operation, bit, value read, result expected by the abstract set at its linearization point
None == [op |-> "none", bit |-> 0, val |-> {}, res |-> FALSE, lin |-> FALSE, want |-> FALSE]
Init == word = {} /\ ones = 0 /\ pc = [t \in Thread |-> "idle"] /\ todo = [t \in Thread |-> None] /\ abs = {} /\ ops = 0

Call(t) == /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
           /\ \E o \in {"set", "unset"}, b \in Bit : todo' = [todo EXCEPT ![t] = [None EXCEPT !.op = o, !.bit = b]]
           /\ pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<word, ones, abs>>
HasGoal(o, v) == IF o.op = "set" THEN o.bit \in v ELSE o.bit \notin v
Load(t) == /\ pc[t] = "load"
           /\ todo' = [todo EXCEPT ![t].val = word, ![t].lin = HasGoal(todo[t], word), ![t].want = FALSE]
           /\ pc' = [pc EXCEPT ![t] = IF HasGoal(todo[t], word) THEN "ret" ELSE "cas"]
           /\ UNCHANGED <<word, ones, abs, ops>>
Cas(t) == /\ pc[t] = "cas"
          /\ LET o == todo[t]
                 new == IF o.op = "set" THEN o.val \cup {o.bit} ELSE o.val \ {o.bit}
             IN  IF Plain \/ word = o.val
                 THEN /\ word' = new
                      /\ abs' = IF o.op = "set" THEN abs \cup {o.bit} ELSE abs \ {o.bit}
                      /\ todo' = [todo EXCEPT ![t].res = TRUE, ![t].want = ((o.op = "set") = (o.bit \notin abs)), ![t].lin = TRUE]
                      /\ pc' = [pc EXCEPT ![t] = "count"]
                 ELSE /\ todo' = [todo EXCEPT ![t].val = word, ![t].lin = HasGoal(o, word)]
                      /\ pc' = [pc EXCEPT ![t] = IF HasGoal(o, word) THEN "ret" ELSE "cas"]
                      /\ UNCHANGED <<word, abs>>
          /\ UNCHANGED <<ones, ops>>
Count(t) == /\ pc[t] = "count" /\ ones' = ones + (IF todo[t].op = "set" THEN 1 ELSE -1)
            /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED <<word, todo, abs, ops>>
Ret(t) == /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ todo' = [todo EXCEPT ![t] = None]
          /\ UNCHANGED <<word, ones, abs, ops>>
Next == \E t \in Thread : Call(t) \/ Load(t) \/ Cas(t) \/ Count(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars

NoUpdateLost == word = abs
ChangeReportedOnce == \A t \in Thread : todo[t].res => todo[t].want
SizeAtRest == (\A t \in Thread : pc[t] \in {"idle", "load", "ret"}) => ones = Cardinality(word)
=============================================================================
