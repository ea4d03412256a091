------------------------------ MODULE ExactGeom ------------------------------
(* Exact integer geometry in the plane and in space.  A point is a tuple of integers, a simplex a tuple of
   points.  These are the definitions; when trace specifications with large coordinates are checked, TLC
   uses harness/java/ExactGeom.java for the same operators (arbitrary precision instead of TLC's 32 bits).
   ExactGeomTest compares the two on small coordinates. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

Minus(p, q) == [i \in 1..Len(p) |-> p[i] - q[i]]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Norm2(p) == SumTo([i \in 1..Len(p) |-> p[i] * p[i]], Len(p))

\* determinant of a square matrix (tuple of rows), by cofactors along the first column
RECURSIVE Det(_)
Det(m) ==
  IF Len(m) = 1 THEN m[1][1]
  ELSE LET n == Len(m)
           Minor(i) == [r \in 1..(n - 1) |-> Tail(m[IF r < i THEN r ELSE r + 1])]
           term == [i \in 1..n |-> IF m[i][1] = 0 THEN 0
                                   ELSE (IF i % 2 = 1 THEN 1 ELSE -1) * m[i][1] * Det(Minor(i))]
       IN SumTo(term, n)

\* the rows p_i - p_last
EdgeRows(s) == [i \in 1..(Len(s) - 1) |-> Minus(s[i], s[Len(s)])]

\* sign of the oriented volume of simplex s (Len(s) = dimension + 1)
Orient(s) == Sgn(Det(EdgeRows(s)))

\* 1 / 0 / -1: q strictly inside / on / outside the circumsphere of the non-degenerate simplex s;
\* 0 for a degenerate simplex
InSphere(s, q) ==
  LET row(p) == Append(Minus(p, q), Norm2(Minus(p, q)))
      m == [i \in 1..Len(s) |-> row(s[i])]
  IN Sgn(Det(m)) * Orient(s)

AbsV(x) == IF x < 0 THEN -x ELSE x
\* the simplices (a tuple of simplices) have together exactly the volume of the box between lo and hi
RECURSIVE Prod(_, _)
Prod(f, n) == IF n = 0 THEN 1 ELSE f[n] * Prod(f, n - 1)
Fills(ss, lo, hi) ==
  LET d == Len(lo)
      vol == [i \in 1..Len(ss) |-> AbsV(Det(EdgeRows(ss[i])))]
  IN SumTo(vol, Len(ss)) = (IF d = 2 THEN 2 ELSE 6) * Prod(Minus(hi, lo), d)

\* the closed ball through the vertices of the non-degenerate simplex s meets the closed box [lo, hi]
\* (decided without division: the squared distance of the centre to the box against the squared radius)
\* centre c = p_last + u / (2 det) with u the cofactor solution of  2 (p_i - p_last) . x = |p_i - p_last|^2
CentreNum(s) ==                                   \* 2 * det * (centre - last point), as a tuple
  LET m == EdgeRows(s)
      d == Len(m)
      rhs == [i \in 1..d |-> Norm2(m[i])]
      Replaced(k) == [i \in 1..d |-> [j \in 1..d |-> IF j = k THEN rhs[i] ELSE m[i][j]]]
  IN [k \in 1..d |-> Det(Replaced(k))]
BallMeetsBox(s, lo, hi) ==
  LET den == 2 * Det(EdgeRows(s))
      o == s[Len(s)]
      u == CentreNum(s)
      a == IF den < 0 THEN -1 ELSE 1
      c(k) == a * u[k] + a * den * o[k]           \* |den| * centre
      D == a * den
      dist(k) == IF D * lo[k] > c(k) THEN D * lo[k] - c(k) ELSE IF c(k) > D * hi[k] THEN c(k) - D * hi[k] ELSE 0
  IN SumTo([k \in 1..Len(lo) |-> dist(k) * dist(k)], Len(lo)) <= Norm2(u)

\* m times the squared distance of p and q, by the squared diagonal of the box lo..hi, rounded down
Share(m, p, q, lo, hi) == (m * Norm2(Minus(p, q))) \div Norm2(Minus(hi, lo))
\* p is nearer to q than r to s
Nearer(p, q, r, s) == Norm2(Minus(p, q)) < Norm2(Minus(r, s))
=============================================================================
