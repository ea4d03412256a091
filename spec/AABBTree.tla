------------------------------ MODULE AABBTree ------------------------------
(* The box tree behind the grid intersection checkers (C07).  It holds unit cells of a grid.  A node has room for
   2^D boxes; a node that is full is split in halves of whole cells, and its boxes are inserted again.
   The root covers the grid cells of two corner points: coordinates are half units, so a corner can lie on the
   border of a cell.  The cell above that border is one of the cells inserted.
   ROUND = "floor1" takes the upper border of the cell of the upper corner, ROUND = "ceil" rounds the corner up. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS D, Hi, MaxCells, ROUND
ASSUME D \in 1..3
VARIABLES root, stored, corner

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Room == Pow2(D)
Axes == 1..D
Bit(i, d) == (i \div Pow2(d - 1)) % 2 = 1

Cells == [Axes -> 0..Hi]
BoxOf(c) == [lo |-> c, hi |-> [d \in Axes |-> c[d] + 1]]
Within(o, i) == \A d \in Axes : o.lo[d] <= i.lo[d] /\ i.hi[d] <= o.hi[d]
Node(lo, hi, leaf) == [lo |-> lo, hi |-> hi, leaf |-> leaf, ch |-> <<>>]
Same(a, b) == a.lo = b.lo /\ a.hi = b.hi

\* <<accepted, node>>: the node after the insertion of b
RECURSIVE Insert(_, _), InsertAll(_, _), Split(_)
Insert(n, b) ==
  IF ~Within(n, b) THEN <<FALSE, n>>
  ELSE IF Same(n, b) THEN <<TRUE, IF n.ch = <<>> /\ b.leaf THEN [n EXCEPT !.leaf = TRUE] ELSE n>>
  ELSE LET C == {i \in 1..Len(n.ch) : Within(n.ch[i], b)} IN
       IF C # {}
       THEN LET i == CHOOSE x \in C : \A y \in C : x <= y
                r == Insert(n.ch[i], b)
            IN <<r[1], [n EXCEPT !.ch[i] = r[2]]>>
       ELSE IF Len(n.ch) < Room THEN <<TRUE, [n EXCEPT !.ch = Append(@, b)]>>
       ELSE Insert(Split(n), b)
\* the old boxes go into the halves; none may get lost
InsertAll(n, s) == IF s = <<>> THEN n ELSE InsertAll(Insert(n, Head(s))[2], Tail(s))
Split(n) ==
  LET mid == [d \in Axes |-> (n.lo[d] + n.hi[d]) \div 2]
      part(i) == Node([d \in Axes |-> IF Bit(i, d) THEN mid[d] ELSE n.lo[d]],
                      [d \in Axes |-> IF Bit(i, d) THEN n.hi[d] ELSE mid[d]], FALSE)
  IN InsertAll([n EXCEPT !.ch = [i \in 1..Room |-> part(i - 1)]], n.ch)

RECURSIVE Leaves(_), Hits(_, _)
Leaves(n) == IF n.leaf THEN {[lo |-> n.lo, hi |-> n.hi]} ELSE UNION {Leaves(n.ch[i]) : i \in 1..Len(n.ch)}
\* the query: a ball that meets only this cell's inner point meets every box around it
Hits(n, c) == Within(n, BoxOf(c)) /\ (n.leaf \/ \E i \in 1..Len(n.ch) : Hits(n.ch[i], c))

\* corners in half units: the cell of coordinate x is x \div 2
Lower(p) == [d \in Axes |-> p[d] \div 2]
Upper(p) == [d \in Axes |-> IF ROUND = "ceil" THEN (p[d] + 1) \div 2 ELSE p[d] \div 2 + 1]
Init == \E a, b \in [Axes -> 0..(2 * Hi + 1)] :
          /\ \A d \in Axes : a[d] <= b[d] /\ a[d] <= 2 /\ b[d] >= 2 * Hi - 2
          /\ corner = <<a, b>>
          /\ root = Node(Lower(a), Upper(b), FALSE)
          /\ stored = {}
\* every cell that holds a point between the corners
Member(c) == \A d \in Axes : corner[1][d] \div 2 <= c[d] /\ c[d] <= corner[2][d] \div 2
Next == /\ Cardinality(stored) < MaxCells
        /\ \E c \in Cells \ stored :
             /\ Member(c)
             /\ stored' = stored \cup {c}
             /\ root' = Insert(root, [lo |-> c, hi |-> [d \in Axes |-> c[d] + 1], leaf |-> TRUE, ch |-> <<>>])[2]
             /\ UNCHANGED corner
Spec == Init /\ [][Next]_<<root, stored, corner>>

Complete == Leaves(root) = {BoxOf(c) : c \in stored}
Found == \A c \in stored : Hits(root, c)
=============================================================================
