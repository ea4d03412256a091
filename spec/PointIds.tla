------------------------------ MODULE PointIds ------------------------------
(***************************************************************************)
(* The id arithmetic of the point store on a machine word of W bits: which *)
(* ids are artificial, their number, and the slot an id stands for when    *)
(* the finite ids start at an offset.  Checked for every id, offset and    *)
(* size of a small word; points are stored and read back by id.            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Bitwise
CONSTANTS W, D, Variant
Word == 0 .. 2^W - 1
Ones == 2^W - 1
WXor(a, b) == a ^^ b
WAnd(a, b) == a & b
WNot(a) == Ones - a
cINF == WXor(Ones, IF Variant = "nomask" THEN 2^D ELSE 2^D - 1)
nINF == (Ones - cINF + 1) % 2^W
IsFinite(i) == WAnd(i, cINF) # cINF
InfIndex(i) == WAnd(WNot(cINF), i)
VARIABLES off, size, mem, inf, last
vars == <<off, size, mem, inf, last>>
Contains(i) == IF IsFinite(i) THEN i > off /\ (i - off) < size ELSE InfIndex(i) < nINF
Init == /\ off \in {0, 1, 3} /\ size \in 1 .. 5
        /\ mem = [s \in 0 .. 7 |-> 0] /\ inf = [s \in 0 .. 2^D |-> 0] /\ last = [i \in Word |-> 0]
Write(i, v) ==
    /\ Contains(i)
    /\ IF IsFinite(i) THEN mem' = [mem EXCEPT ![i - off] = v] /\ UNCHANGED inf
       ELSE inf' = [inf EXCEPT ![InfIndex(i)] = v] /\ UNCHANGED mem
    /\ last' = [last EXCEPT ![i] = v]
    /\ UNCHANGED <<off, size>>
Grow == size < 7 /\ size' = size + 1 /\ UNCHANGED <<off, mem, inf, last>>
Few == Cardinality({j \in Word : last[j] # 0}) < 3
DoWrite == Few /\ \E i \in Word : last[i] = 0 /\ Write(i, i + 1)
Next == Grow \/ DoWrite
Spec == Init /\ [][Next]_vars
\* exactly the highest 2^D ids are artificial, and they are numbered in order
TopIds == {i \in Word : i > Ones - 2^D}
Split == {i \in Word : ~IsFinite(i)} = TopIds /\ nINF = 2^D /\ \A i \in TopIds : InfIndex(i) = i - (2^W - 2^D)
ReadBack == \A i \in Word : last[i] # 0 => last[i] = IF IsFinite(i) THEN mem[i - off] ELSE inf[InfIndex(i)]
=============================================================================
