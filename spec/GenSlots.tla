------------------------------ MODULE GenSlots ------------------------------
(* How the generators hand out the ids 1..n: all in turn, in equal shares over k clusters, in pairs, or by the
   index of the cluster of each id.  RULE picks the arithmetic; at the end every id has its point exactly once,
   no other id has one, and every cluster has its share. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MaxN, MaxK, RULE
VARIABLES n, k, at, got
vars == <<n, k, at, got>>
Init == n \in 0..MaxN /\ k \in 1..MaxK /\ at = 0 /\ got = [i \in 0..(MaxN + 1) |-> <<>>]

Put(g, S, c) == [i \in DOMAIN g |-> IF i \in S THEN Append(g[i], c) ELSE g[i]]
Steps == IF RULE \in {"shares", "floor"} THEN k ELSE IF RULE \in {"pairs", "oddpairs"} THEN (IF RULE = "pairs" THEN n + 1 ELSE n) \div 2 ELSE n
Fill ==
  CASE RULE = "floor" -> Put(got, (at * (n \div k) + 1)..((at + 1) * (n \div k)), at)
    [] RULE = "shares" -> Put(got, ((n * at) \div k + 1)..((n * (at + 1)) \div k), at)
    [] RULE = "oddpairs" -> Put(got, {2 * at + 1, 2 * at + 2}, 0)
    [] RULE = "pairs" -> Put(got, {2 * at + 1, 2 * at + 2} \cap 1..n, 0)
    [] RULE = "fromzero" -> Put(got, {at}, (at * k) \div n)
    [] RULE = "index" -> Put(got, {at + 1}, (at * k) \div n)
Step == at < Steps /\ got' = Fill /\ at' = at + 1 /\ UNCHANGED <<n, k>>
Next == Step \/ (at = Steps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Clusters == IF RULE \in {"pairs", "oddpairs"} THEN {0} ELSE 0..(k - 1)
Share(c) == Cardinality({i \in 1..n : got[i] = <<c>>})
Done == at = Steps =>
  /\ \A i \in DOMAIN got : Len(got[i]) = IF i \in 1..n THEN 1 ELSE 0
  /\ \A i \in 1..n : got[i][1] \in Clusters
  /\ \A c, d \in Clusters : Share(c) - Share(d) \in -1..1
=============================================================================
