----------------------------- MODULE BlockStore -----------------------------
(***************************************************************************)
(* A store of id-addressed entries kept in disjoint blocks of consecutive  *)
(* ids, and the two algorithms every access depends on: the binary search  *)
(* for the block of an id (with a remembered position as a hint), and the  *)
(* splitting of an iteration range at a midpoint.                          *)
(* All layouts of non-empty disjoint blocks over ids 0 .. N-1 and all sets *)
(* of used ids are initial states; the actions add blocks, look up ids     *)
(* with an arbitrary hint and split ranges.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, MaxBlocks, Variant
VARIABLES blocks,      \* sequence of <<lo, hi>>, ascending
          used,        \* ids holding an entry
          parts,       \* the ranges a full range was split into: set of <<begin, end>>
          answer       \* result of the last lookup: [id, hint, found, block]
vars == <<blocks, used, parts, answer>>
NoAnswer == [id |-> N, hint |-> 1, found |-> FALSE, block |-> 1]

Lo(i) == blocks[i][1]
Hi(i) == blocks[i][2]
Ids == UNION {Lo(i) .. Hi(i) - 1 : i \in 1 .. Len(blocks)}
Layouts == {bs \in UNION {[1 .. k -> (0 .. N - 1) \X (1 .. N)] : k \in 1 .. MaxBlocks} :
              /\ \A i \in DOMAIN bs : bs[i][1] < bs[i][2]
              /\ \A i \in 1 .. Len(bs) - 1 : bs[i][2] <= bs[i + 1][1]}
Init == /\ blocks \in Layouts
        /\ used \in SUBSET Ids
        /\ answer = NoAnswer
        /\ parts = {<<0, N>>}          \* replaced by the full range at the first split

(* ---- block search: the loop of _findBlock over a half-open window -------- *)
Test(id, b) == Lo(b) <= id /\ id < Hi(b)
RECURSIVE Search(_, _, _)
Search(id, start, count) ==       \* start is 1-based, count blocks remain
    IF count = 0 THEN start
    ELSE LET step == count \div 2  it == start + step IN
         IF Test(id, it) THEN it
         ELSE IF (IF Variant = "wrongbound" THEN Hi(it) ELSE Lo(it)) < id THEN Search(id, it + 1, count - step - 1)
         ELSE Search(id, start, step)
Find(id) == Search(id, 1, Len(blocks))      \* Len(blocks)+1: no block at or above id
Lookup(id, hint) ==
    /\ hint \in 1 .. Len(blocks)
    /\ IF Test(id, hint) THEN answer' = [id |-> id, hint |-> hint, found |-> TRUE, block |-> hint]
       ELSE LET b == Find(id) IN
            answer' = IF b <= Len(blocks) /\ Test(id, b) THEN [id |-> id, hint |-> hint, found |-> TRUE, block |-> b]
                      ELSE [id |-> id, hint |-> hint, found |-> FALSE, block |-> hint]
    /\ UNCHANGED <<blocks, used, parts>>

(* ---- iteration: positions are used ids or the end (= upper bound) -------- *)
Upper == Hi(Len(blocks))
Lower == Lo(1)
Next(i) == IF \E u \in used : u >= i THEN CHOOSE u \in used : u >= i /\ \A v \in used : v >= i => u <= v ELSE Upper
Prev(i) == IF \E u \in used : u < i THEN CHOOSE u \in used : u < i /\ \A v \in used : v < i => v <= u ELSE Lower
\* raw index -> first position at or after it, going through the block found for it
Seek(i) == LET b == Find(i) IN Next(IF i > Lo(b) THEN i ELSE Lo(b))
Mid(b, e) == LET m == Seek(b + (e - b) \div 2) IN
             IF Variant = "nobackoff" THEN m
             ELSE IF m = e THEN (LET p == Prev(e) IN IF p < b THEN b ELSE p) ELSE m
Full == <<Next(Lower), Upper>>
Cur == IF parts = {<<0, N>>} THEN {Full} ELSE parts
\* a part is divided only if its midpoint lies strictly inside
Split(p) == /\ p \in Cur /\ p[1] # p[2]
            /\ LET m == Mid(p[1], p[2]) IN
               /\ p[1] < m /\ m < p[2]
               /\ parts' = (Cur \ {p}) \cup {<<p[1], m>>, <<m, p[2]>>}
            /\ UNCHANGED <<blocks, used, answer>>
Visit(p) == {u \in used : p[1] <= u /\ u < p[2]}

AddBlock(lo, hi) ==
    /\ Len(blocks) < MaxBlocks /\ lo < hi /\ \A i \in 1 .. Len(blocks) : hi <= Lo(i) \/ Hi(i) <= lo
    /\ parts = {<<0, N>>} /\ answer = NoAnswer
    /\ LET k == Cardinality({i \in 1 .. Len(blocks) : Lo(i) < lo}) IN
       blocks' = SubSeq(blocks, 1, k) \o <<<<lo, hi>>>> \o SubSeq(blocks, k + 1, Len(blocks))
    /\ UNCHANGED <<used, parts, answer>>

DoLookup == answer = NoAnswer /\ parts = {<<0, N>>} /\ \E id \in 0 .. N - 1, hint \in 1 .. MaxBlocks : Lookup(id, hint)
DoSplit == answer = NoAnswer /\ Cardinality(parts) < 5 /\ \E p \in Cur : Split(p)
DoAdd == \E lo \in 0 .. N - 1, hi \in 1 .. N : AddBlock(lo, hi)
NextStep == DoLookup \/ DoSplit \/ DoAdd
Spec == Init /\ [][NextStep]_vars

(* ---- what has to hold ----------------------------------------------------- *)
Sorted == \A i \in 1 .. Len(blocks) - 1 : Hi(i) <= Lo(i + 1)
FindRight == answer # NoAnswer =>
    /\ answer.found = (answer.id \in Ids)
    /\ answer.found => Test(answer.id, answer.block)
\* the first block at or above an id that lies in none
FindInGap == \A id \in 0 .. N - 1 : id \notin Ids =>
    Find(id) = 1 + Cardinality({i \in 1 .. Len(blocks) : Hi(i) <= id})
Partition == /\ UNION {Visit(p) : p \in Cur} = used
             /\ \A p, q \in Cur : p # q => Visit(p) \cap Visit(q) = {}
\* a part that calls itself empty (begin = end) has no entry, and splitting makes progress
NonEmptyParts == \A p \in Cur : (p[1] = p[2]) => Visit(p) = {}
Progress == \A p \in Cur : p[1] <= p[2]
\* a part with at least two entries can be divided
Divisible == \A p \in Cur : Cardinality(Visit(p)) >= 2 => LET m == Mid(p[1], p[2]) IN p[1] < m /\ m < p[2]
=============================================================================
