----------------------------- MODULE BoxesTest -----------------------------
(* The operators of Boxes against their definitions, for all small boxes in the plane: containment and intersection
   are decided by the points of a lattice fine enough to contain the deciding ones. *)
EXTENDS Boxes
VARIABLE s
R == -2..2
Boxes1 == {b \in (-1..1) \X (-1..1) : b[1] <= b[2]}
Grid == {<<x, y>> : x \in -4..4, y \in -4..4}                                     \* the lattice points around
Init == s \in [x : Boxes1, y : Boxes1, c : R \X R, r : 0..2]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Lo == <<s.x[1], s.y[1]>>
Hi == <<s.x[2], s.y[2]>>
InBox(p) == PointIn(Lo, Hi, p)
\* the point of a box nearest to a lattice point, and the points of a ball farthest along the axes, are lattice points
Meets == BallMeets(Lo, Hi, s.c, s.r) <=> \E p \in Grid : InBox(p) /\ InBall(s.c, s.r, p)
Inside == BallIn(Lo, Hi, s.c, s.r) <=> \A p \in Grid : InBall(s.c, s.r, p) => InBox(p)
Smallest == LET b == Around(Lo, Hi, s.c)
                Has(l, h) == BoxIn(l, h, Lo, Hi) /\ PointIn(l, h, s.c)
            IN Has(b[1], b[2]) /\ \A l, h \in R \X R : Has(l, h) => BoxIn(l, h, b[1], b[2])
HullOK == Hull(<<Lo, s.c, Hi>>) = Around(Lo, Hi, s.c)
OneCell == \A w \in 1..3 : LET i == CellOf(w, s.c) IN
             InCell(w, i, s.c) /\ \A j \in (-3..3) \X (-3..3) : InCell(w, j, s.c) => j = i
\* cutting at a line: the rest and the part have the whole box as their union and only the line in common
Cut == \A d \in 1..2, a \in R : (Lo[d] < a /\ a < Hi[d]) =>
         LET h == [Hi EXCEPT ![d] = a]  rest == Rest(Lo, Hi, Lo, h)
         IN \A p \in Grid : /\ InBox(p) <=> PointIn(Lo, h, p) \/ PointIn(rest[1], rest[2], p)
                            /\ PointIn(Lo, h, p) /\ PointIn(rest[1], rest[2], p) => p[d] = a
\* distance to the border: the largest ball around an inner point within the box
Border == InBox(s.c) => LET b == -BorderDist(Lo, Hi, s.c) IN BallIn(Lo, Hi, s.c, b) /\ ~BallIn(Lo, Hi, s.c, b + 1)
=============================================================================
