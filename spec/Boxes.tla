------------------------------- MODULE Boxes -------------------------------
(* Boxes, balls and grid cells over the integers (C21, C07).  Points are tuples of integers, a box is a pair of
   points, a ball a centre and a radius; all of them are closed.  BoxesTest compares the operators with their
   definitions by points. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dims(p) == 1..Len(p)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumN(f, n - 1)
Sq(p) == SumN([d \in Dims(p) |-> p[d] * p[d]], Len(p))
Sub(p, q) == [d \in Dims(p) |-> p[d] - q[d]]

PointIn(lo, hi, p) == \A d \in Dims(p) : lo[d] <= p[d] /\ p[d] <= hi[d]
BoxIn(lo, hi, l, h) == PointIn(lo, hi, l) /\ PointIn(lo, hi, h)
\* the distances of a point to a box, per dimension
Away(lo, hi, p) == [d \in Dims(p) |-> Max2(Max2(lo[d] - p[d], p[d] - hi[d]), 0)]
BallMeets(lo, hi, c, r) == LET a == Away(lo, hi, c) IN (\A d \in Dims(c) : a[d] <= r) /\ Sq(a) <= r * r
BallIn(lo, hi, c, r) == \A d \in Dims(c) : lo[d] <= c[d] - r /\ c[d] + r <= hi[d]
InBall(c, r, p) == Sq(Sub(c, p)) <= r * r

\* smallest box around a box and a point / around a set of points
Around(lo, hi, p) == << [d \in Dims(p) |-> Min2(lo[d], p[d])], [d \in Dims(p) |-> Max2(hi[d], p[d])] >>
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Hull(ps) == << [d \in Dims(ps[1]) |-> SetMin({ps[i][d] : i \in 1..Len(ps)})], [d \in Dims(ps[1]) |-> SetMax({ps[i][d] : i \in 1..Len(ps)})] >>

\* what is left of a box when a part that shares all but one of its faces is cut off
Rest(lo, hi, l, h) == << [d \in Dims(lo) |-> IF h[d] # hi[d] THEN h[d] ELSE lo[d]],
                         [d \in Dims(lo) |-> IF l[d] # lo[d] THEN l[d] ELSE hi[d]] >>

\* distance vector of a point to the border of a box it lies in: the nearest face decides, the other entries are 0
BorderDist(lo, hi, p) ==                                     \* the amount, at most 0 inside
  SetMax({Max2(lo[d] - p[d], p[d] - hi[d]) : d \in Dims(p)})

\* cells of width w
FloorDiv(x, w) == IF x >= 0 THEN x \div w ELSE -((w - 1 - x) \div w)
CellOf(w, p) == [d \in Dims(p) |-> FloorDiv(p[d], w)]
CellLow(w, i) == [d \in Dims(i) |-> i[d] * w]
CellHigh(w, i) == [d \in Dims(i) |-> (i[d] + 1) * w]
InCell(w, i, p) == \A d \in Dims(p) : i[d] * w <= p[d] /\ p[d] < (i[d] + 1) * w
=============================================================================
