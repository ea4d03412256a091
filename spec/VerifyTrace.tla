----------------------------- MODULE VerifyTrace -----------------------------
(* Histories of self checks and comparisons (C04): points, meshes (some of them damaged) and the answers. *)
EXTENDS Mesh, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, pts, ok
vars == <<h, l, pts, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
Init == h \in 1..Len(Hist) /\ l = 1 /\ pts = [d |-> 0] /\ ok = TRUE
Ran(s) == {s[i] : i \in 1..Len(s)}
TPts == More /\ Ev.e = "pts" /\ pts' = Ev /\ ok' = Ev.exact

D == pts.d
Coord(v) == IF v >= pts.base THEN pts.inf[v - pts.base + 1] ELSE pts.p[v - pts.off]
Artificial == {pts.base + i - 1 : i \in 1..Len(pts.inf)}
Finite == {pts.off + i : i \in 1..Len(pts.p)}
Low == [k \in 1..D |-> Min({pts.inf[i][k] : i \in 1..Len(pts.inf)})]
High == [k \in 1..D |-> Max({pts.inf[i][k] : i \in 1..Len(pts.inf)})]
Used(m) == {m[i][1 + j] : i \in 1..Len(m), j \in 1..(D + 1)}

\* a valid Delaunay triangulation of exactly the given points
Valid(m, hull, given) ==
  /\ Links(m, D, pts.base, hull)
  /\ Delaunay(m, D, given \cup Artificial, Coord, Low, High)

Shared(t, u) == Cardinality({t[1 + i] : i \in 1..(D + 1)} \cap {u[1 + i] : i \in 1..(D + 1)})
Nbs(t) == {Nb(t, D, k) : k \in 1..(D + 1)} \ {-1}
\* a link to nothing, to a simplex without a common facet, or not returned; a common facet without links
BadLink(m) ==
  LET idx == IndexOf(m)  ids == Ids(m) IN
  \/ \E i \in 1..Len(m) : \E n \in Nbs(m[i]) :
       n \notin ids \/ Shared(m[i], m[idx[n]]) # D \/ m[i][1] \notin Nbs(m[idx[n]])
  \/ \E i, j \in 1..Len(m) : i # j /\ Shared(m[i], m[j]) = D /\ m[j][1] \notin Nbs(m[i])
\* given points strictly inside the sphere of a simplex, seen across a facet
InCircle(m) ==
  LET idx == IndexOf(m)  ids == Ids(m) IN
  {<<m[z[1]][1], z[3]>> : z \in {y \in (1..Len(m)) \X (1..(D + 1)) \X Finite :
      LET t == m[y[1]]  n == Nb(t, D, y[2]) IN
      /\ n \in ids
      /\ y[3] \in {m[idx[n]][1 + j] : j \in 1..(D + 1)} \ {t[1 + j] : j \in 1..(D + 1)}
      /\ InSphere(Geo(t, D, Coord), Coord(y[3])) > 0}}
Wrong(m, given) ==
  \/ given \ Used(m) # {}
  \/ (Used(m) \cap Finite) \ given # {}
  \/ ~ Distinct(m) \/ BadLink(m)
  \/ InCircle(m) # {}
HullWrong(m, hull) ==
  \E i \in 1..Len(m) : (Infinite(m[i], D, pts.base)) # (m[i][1] \in Ran(hull))

VerifyOK(e) ==
  LET given == Ran(e.given)  inc == Ran(e.inc) IN
  /\ Wrong(e.s, given) \/ HullWrong(e.s, e.hull) => ~ e.valid
  /\ Valid(e.s, e.hull, given) => e.valid
  /\ Distinct(e.s) => \A z \in inc \ InCircle(e.s) :                      \* only a flat simplex has no sphere
       \E i \in 1..Len(e.s) : e.s[i][1] = z[1] /\ Orient(Geo(e.s[i], D, Coord)) = 0
  /\ Distinct(e.s) /\ ~ BadLink(e.s) => InCircle(e.s) \subseteq inc
TVerify == More /\ Ev.e = "verify" /\ UNCHANGED pts /\ ok' = VerifyOK(Ev)

Simplices(m) == {VSeq(m[i], D) : i \in 1..Len(m)}
CrossOK(e) ==
  LET a == Simplices(e.mine)  b == Simplices(e.real) IN
  /\ Ran(e.missing) = b \ a
  /\ Ran(e.surplus) = a \ b
  /\ e.valid => a = b
  /\ a = b /\ LinksOK(e.mine, D) /\ LinksOK(e.real, D) /\ Distinct(e.mine) /\ Distinct(e.real)
       /\ Len(e.mine) = Cardinality(a) /\ Len(e.real) = Cardinality(b) => e.valid
TCross == More /\ Ev.e = "cross" /\ UNCHANGED pts /\ ok' = CrossOK(Ev)
TRun == More /\ Ev.e = "run" /\ UNCHANGED pts /\ ok' = TRUE
TOther == More /\ Ev.e \notin {"pts", "verify", "cross", "run"} /\ ok' = FALSE /\ UNCHANGED pts
Next == ok /\ (TPts \/ TVerify \/ TCross \/ TRun \/ TOther)
Accepted == ok
TSpec == Init /\ [][Next]_vars
=============================================================================
