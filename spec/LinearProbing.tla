--------------------------- MODULE LinearProbing ---------------------------
(***************************************************************************)
(* The algorithm of the sequential hash tables: open addressing with       *)
(* linear probing, growth by rehashing into twice the cells.  The hash     *)
(* function is an arbitrary function of the key, so every clustering is    *)
(* explored.  Checked: the table represents exactly the keys inserted (as  *)
(* a set, or as a bag in a multi table), every probe sequence ends at an   *)
(* empty cell, and the index interval of a multi table lookup, walked      *)
(* cyclically, visits every cell of the key and ends.                      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Key, MaxCap, MaxOps, Multi,
          Threshold      \* "half": grow when 2*(n+1) > cells; "int": when n \div cells >= 1 (never in time); "old": 2*n >= cells

VARIABLES hash, cells, cap, n, model, ops
vars == <<hash, cells, cap, n, model, ops>>

Home(k, c) == hash[k] % c
\* first index from i on (cyclically) that satisfies P, at most c probes; c if there is none
RECURSIVE Probe(_, _, _, _, _)
Probe(ar, c, i, k, left) ==
    IF left = 0 THEN c
    ELSE IF ar[i] = 0 \/ (~Multi /\ ar[i] = k) THEN i
    ELSE Probe(ar, c, (i + 1) % c, k, left - 1)

Put(ar, c, k) == LET i == Probe(ar, c, Home(k, c), k, c)
                 IN  IF i = c THEN ar ELSE [ar EXCEPT ![i] = k]
Blank(c) == [i \in 0 .. c - 1 |-> 0]
RECURSIVE Refill(_, _, _, _, _)
Refill(ar, c, i, to, d) == IF i = c THEN to
                           ELSE Refill(ar, c, i + 1, IF ar[i] = 0 THEN to ELSE Put(to, d, ar[i]), d)

Grow == CASE Threshold = "half" -> 2 * (n + 1) > cap
          [] Threshold = "old" -> 2 * n >= cap
          [] Threshold = "int" -> n \div cap >= 1

Found(k) == LET i == Home(k, cap)
                RECURSIVE Walk(_, _)
                Walk(j, left) == IF left = 0 THEN "lost" ELSE IF cells[j] = k THEN "yes" ELSE IF cells[j] = 0 THEN "no" ELSE Walk((j + 1) % cap, left - 1)
            IN  Walk(i, 2 * cap)

\* the multi table's lookup: [first, last) of the chain, walked cyclically with other keys skipped
RECURSIVE First(_, _, _)
First(i, k, left) == IF left = 0 \/ cells[i] = 0 \/ cells[i] = k THEN i ELSE First((i + 1) % cap, k, left - 1)
RECURSIVE Last(_, _)
Last(i, left) == IF left = 0 \/ cells[i] = 0 THEN i ELSE Last((i + 1) % cap, left - 1)
RECURSIVE WalkCount(_, _, _, _)
WalkCount(i, last, k, left) == IF i = last \/ left = 0 THEN 0
                               ELSE (IF cells[i] = k THEN 1 ELSE 0) + WalkCount((i + 1) % cap, last, k, left - 1)
GetCount(k) == LET f == First(Home(k, cap), k, cap)
               IN  IF cells[f] = 0 THEN 0 ELSE WalkCount(f, Last(f, cap), k, 2 * cap)

Init == /\ hash \in [Key -> 0 .. MaxCap - 1]
        /\ cap \in {c \in {1, 2, 4} : c <= MaxCap}
        /\ cells = Blank(cap) /\ n = 0 /\ ops = 0
        /\ model = [k \in Key |-> 0]

Insert(k) ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ LET c == IF Grow /\ cap < MaxCap THEN 2 * cap ELSE cap
           ar == IF c = cap THEN cells ELSE Refill(cells, cap, 0, Blank(c), c)
       IN  /\ cap' = c
           /\ cells' = Put(ar, c, k)
           /\ n' = IF Multi \/ model[k] = 0 THEN n + 1 ELSE n
           /\ model' = [model EXCEPT ![k] = IF Multi THEN @ + 1 ELSE 1]
    /\ UNCHANGED hash
\* rehash keeping the keys outside f
Filter(f) ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ cells' = Refill([i \in DOMAIN cells |-> IF cells[i] \in f THEN 0 ELSE cells[i]], cap, 0, Blank(cap), cap)
    /\ model' = [k \in Key |-> IF k \in f THEN 0 ELSE model[k]]
    /\ n' = Cardinality({i \in DOMAIN cells' : cells'[i] # 0})
    /\ UNCHANGED <<hash, cap>>
Next == \/ \E k \in Key : Insert(k)
        \/ \E f \in {{}, {CHOOSE k \in Key : TRUE}} : Filter(f)
Spec == Init /\ [][Next]_vars

Represents == \A k \in Key : Cardinality({i \in DOMAIN cells : cells[i] = k}) = model[k]
Counts == n = Cardinality({i \in DOMAIN cells : cells[i] # 0})
LookupEnds == \A k \in Key : Found(k) # "lost"
LookupRight == \A k \in Key : (Found(k) = "yes") = (model[k] > 0)
GetRight == Multi => \A k \in Key : GetCount(k) = model[k]
=============================================================================
