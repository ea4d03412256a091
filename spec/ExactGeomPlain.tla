------------------------------ MODULE ExactGeomPlain ------------------------------
(* The definitions of ExactGeom under names that have no override (written by tools/mkplain.py). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

PSgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

PMinus(p, q) == [i \in 1..Len(p) |-> p[i] - q[i]]
RECURSIVE PSumTo(_, _)
PSumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + PSumTo(f, n - 1)
PNorm2(p) == PSumTo([i \in 1..Len(p) |-> p[i] * p[i]], Len(p))

\* determinant of a square matrix (tuple of rows), by cofactors along the first column
RECURSIVE PDet(_)
PDet(m) ==
  IF Len(m) = 1 THEN m[1][1]
  ELSE LET n == Len(m)
           Minor(i) == [r \in 1..(n - 1) |-> Tail(m[IF r < i THEN r ELSE r + 1])]
           term == [i \in 1..n |-> IF m[i][1] = 0 THEN 0
                                   ELSE (IF i % 2 = 1 THEN 1 ELSE -1) * m[i][1] * PDet(Minor(i))]
       IN PSumTo(term, n)

\* the rows p_i - p_last
PEdgeRows(s) == [i \in 1..(Len(s) - 1) |-> PMinus(s[i], s[Len(s)])]

\* sign of the oriented volume of simplex s (Len(s) = dimension + 1)
POrient(s) == PSgn(PDet(PEdgeRows(s)))

\* 1 / 0 / -1: q strictly inside / on / outside the circumsphere of the non-degenerate simplex s;
\* 0 for a degenerate simplex
PInSphere(s, q) ==
  LET row(p) == Append(PMinus(p, q), PNorm2(PMinus(p, q)))
      m == [i \in 1..Len(s) |-> row(s[i])]
  IN PSgn(PDet(m)) * POrient(s)

PAbsV(x) == IF x < 0 THEN -x ELSE x
\* the simplices (a tuple of simplices) have together exactly the volume of the box between lo and hi
RECURSIVE PProd(_, _)
PProd(f, n) == IF n = 0 THEN 1 ELSE f[n] * PProd(f, n - 1)
PFills(ss, lo, hi) ==
  LET d == Len(lo)
      vol == [i \in 1..Len(ss) |-> PAbsV(PDet(PEdgeRows(ss[i])))]
  IN PSumTo(vol, Len(ss)) = (IF d = 2 THEN 2 ELSE 6) * PProd(PMinus(hi, lo), d)

\* the closed ball through the vertices of the non-degenerate simplex s meets the closed box [lo, hi]
\* (decided without division: the squared distance of the centre to the box against the squared radius)
\* centre c = p_last + u / (2 det) with u the cofactor solution of  2 (p_i - p_last) . x = |p_i - p_last|^2
PCentreNum(s) ==                                   \* 2 * det * (centre - last point), as a tuple
  LET m == PEdgeRows(s)
      d == Len(m)
      rhs == [i \in 1..d |-> PNorm2(m[i])]
      Replaced(k) == [i \in 1..d |-> [j \in 1..d |-> IF j = k THEN rhs[i] ELSE m[i][j]]]
  IN [k \in 1..d |-> PDet(Replaced(k))]
PBallMeetsBox(s, lo, hi) ==
  LET den == 2 * PDet(PEdgeRows(s))
      o == s[Len(s)]
      u == PCentreNum(s)
      a == IF den < 0 THEN -1 ELSE 1
      c(k) == a * u[k] + a * den * o[k]           \* |den| * centre
      D == a * den
      dist(k) == IF D * lo[k] > c(k) THEN D * lo[k] - c(k) ELSE IF c(k) > D * hi[k] THEN c(k) - D * hi[k] ELSE 0
  IN PSumTo([k \in 1..Len(lo) |-> dist(k) * dist(k)], Len(lo)) <= PNorm2(u)

\* m times the squared distance of p and q, by the squared diagonal of the box lo..hi, rounded down
PShare(m, p, q, lo, hi) == (m * PNorm2(PMinus(p, q))) \div PNorm2(PMinus(hi, lo))
\* p is nearer to q than r to s
PNearer(p, q, r, s) == PNorm2(PMinus(p, q)) < PNorm2(PMinus(r, s))
=============================================================================
