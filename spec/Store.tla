------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Abstract data types behind the hash tables.  A store is a function from *)
(* entries <<key, value>> to how often the entry is in the store.          *)
(*   kind "set"  : value is always 0, every entry once                     *)
(*   kind "map"  : one entry per key, the value given last                 *)
(*   kind "bag"  : every entry as often as it was inserted                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == [e \in {} |-> 0]
Keys(s) == {e[1] : e \in DOMAIN s}
Vals(s, k) == {e[2] : e \in {x \in DOMAIN s : x[1] = k}}
RECURSIVE SumSet(_, _)
SumSet(s, D) == IF D = {} THEN 0 ELSE LET e == CHOOSE x \in D : TRUE IN s[e] + SumSet(s, D \ {e})
Size(s) == SumSet(s, DOMAIN s)

Mult(s, e) == IF e \in DOMAIN s THEN s[e] ELSE 0
Restrict(s, D) == [e \in D |-> s[e]]

\* insert: [s |-> new store, r |-> "the key (pair) is new"]
Insert(kind, s, k, v) ==
    CASE kind = "set" -> [s |-> (<<k, 0>> :> 1) @@ s, r |-> <<k, 0>> \notin DOMAIN s]
      [] kind = "map" -> [s |-> (<<k, v>> :> 1) @@ Restrict(s, {e \in DOMAIN s : e[1] # k}), r |-> k \notin Keys(s)]
      [] kind = "bag" -> [s |-> (<<k, v>> :> Mult(s, <<k, v>>) + 1) @@ s, r |-> TRUE]

\* keep the entries whose key's membership in f equals cmp
Select(s, f, cmp) == Restrict(s, {e \in DOMAIN s : (e[1] \in f) = cmp})

Merge(kind, a, b) ==
    CASE kind = "set" -> [e \in DOMAIN a \cup DOMAIN b |-> 1]
      [] kind = "map" -> b @@ Restrict(a, {e \in DOMAIN a : e[1] \notin Keys(b)})
      [] kind = "bag" -> [e \in DOMAIN a \cup DOMAIN b |-> Mult(a, e) + Mult(b, e)]

\* the store a sequence of entries describes
RECURSIVE BagOfFrom(_, _, _)
BagOfFrom(q, i, acc) == IF i > Len(q) THEN acc
                        ELSE BagOfFrom(q, i + 1, (q[i] :> Mult(acc, q[i]) + 1) @@ acc)
BagOf(q) == BagOfFrom(q, 1, Empty)
=============================================================================
