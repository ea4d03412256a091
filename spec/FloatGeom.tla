------------------------------ MODULE FloatGeom ------------------------------
(* Exact geometry over floating point numbers.  A number is a triple <<a, b, e>> and denotes (a * 2^27 + b) * 2^e;
   points are tuples of numbers.  As in ExactGeom, these are the definitions; TLC evaluates the operators with
   harness/java/FloatGeom.java on arbitrary precision integers, FloatGeomTest compares the two. *)
EXTENDS ExactGeom

Two27 == 134217728
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
MinExp(ps) == LET es == {ps[i][k][3] : i \in 1..Len(ps), k \in 1..Len(ps[1])} IN CHOOSE e \in es : \A f \in es : e <= f
\* the points as integers, in units of 2^e
Ints(ps, e) == [i \in 1..Len(ps) |-> [k \in 1..Len(ps[i]) |-> (ps[i][k][1] * Two27 + ps[i][k][2]) * Pow2(ps[i][k][3] - e)]]

\* sign of the oriented volume
OrientF(s) == Orient(Ints(s, MinExp(s)))
\* sign of the determinant of the lifted points; positive for a point inside of a positively oriented simplex
LiftedF(s, q) ==
  LET all == Ints(Append(s, q), MinExp(Append(s, q)))
      o == all[Len(all)]
  IN Sgn(Det([i \in 1..Len(s) |-> Append(Minus(all[i], o), Norm2(Minus(all[i], o)))]))
=============================================================================
