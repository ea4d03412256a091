-------------------------------- MODULE Mesh --------------------------------
(* What a triangulation returned by the system has to look like.  A mesh is a tuple of simplices, each a
   tuple <<id, v_1 .. v_D+1, n_1 .. n_D+1>>: its id, its vertices' point ids, its neighbours' simplex ids
   (n_i lies across the facet without v_i, -1 = nothing).  Artificial corner points have ids >= base.
   The two operators Links and Delaunay are the statements of C03 and C01. *)
EXTENDS ExactGeom

FacetSeq(t, dim, i) == [j \in 1..dim |-> t[1 + (IF j < i THEN j ELSE j + 1)]]    \* without its i-th vertex
Nb(t, dim, i) == t[dim + 2 + i]
Vtx(t, i) == t[1 + i]
VSeq(t, dim) == SubSeq(t, 2, dim + 2)

Ids(m) == {m[i][1] : i \in 1..Len(m)}
\* position of each id; only meaningful when the ids are distinct
IndexOf(m) == LET f == [x \in Ids(m) |-> 0] IN FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![m[i][1]] = i], f, m)

Distinct(m) == Cardinality(Ids(m)) = Len(m)
Ascending(m, dim) == \A i \in 1..Len(m) : \A j \in 2..(dim + 1) : m[i][j] < m[i][j + 1]
AllFacets(m, dim) == {FacetSeq(m[i], dim, j) : i \in 1..Len(m), j \in 1..(dim + 1)}
Slots(m, dim) == (1..Len(m)) \X (1..(dim + 1))

\* neighbour links: each finite one names an existing simplex with the same facet, which names it back across
\* that facet; and a missing one means that no other simplex has the facet (the facets are as many as the
\* pairs of linked slots and the unlinked slots together)
LinkOK(m, dim, idx, ids, i, k) ==
  LET t == m[i]  n == Nb(t, dim, k) IN
  n = -1 \/ (n \in ids /\ n # t[1] /\
             LET u == m[idx[n]] IN
             \E e \in 1..(dim + 1) : Nb(u, dim, e) = t[1] /\ FacetSeq(u, dim, e) = FacetSeq(t, dim, k))
LinksOK(m, dim) ==
  LET idx == IndexOf(m)  ids == Ids(m)
      open == Cardinality({z \in Slots(m, dim) : Nb(m[z[1]], dim, z[2]) = -1})
      all == Len(m) * (dim + 1)
  IN /\ \A i \in 1..Len(m) : \A k \in 1..(dim + 1) : LinkOK(m, dim, idx, ids, i, k)
     /\ 2 * Cardinality(AllFacets(m, dim)) = all + open

Infinite(t, dim, base) == t[dim + 2] >= base
HullOK(m, dim, base, hull) ==
  LET want == {m[i][1] : i \in {j \in 1..Len(m) : Infinite(m[j], dim, base)}}
  IN {hull[i] : i \in 1..Len(hull)} = want /\ Len(hull) = Cardinality(want)

Links(m, dim, base, hull) ==
  Distinct(m) /\ Ascending(m, dim) /\ LinksOK(m, dim) /\ HullOK(m, dim, base, hull)

\* geometry: P gives the coordinates of every point of the triangulated set
Geo(t, dim, P(_)) == [i \in 1..(dim + 1) |-> P(t[1 + i])]
\* across the facet without vertex k lies the vertex of the neighbour that is not shared
Opposite(t, u, dim) == CHOOSE x \in {u[1 + i] : i \in 1..(dim + 1)} : \A j \in 1..(dim + 1) : t[1 + j] # x
Solid(m, dim, P(_)) == \A i \in 1..Len(m) : Orient(Geo(m[i], dim, P)) # 0
LocallyDelaunay(m, dim, P(_)) ==
  LET idx == IndexOf(m) IN
  \A i \in 1..Len(m) :
    LET t == m[i]  g == Geo(t, dim, P)  o == Orient(g) IN
    \A k \in 1..(dim + 1) :
      LET n == Nb(t, dim, k) IN
      n = -1 \/ n < t[1] \/
      LET x == P(Opposite(t, m[idx[n]], dim)) IN
      /\ Orient([g EXCEPT ![k] = x]) = -o            \* on the other side of the facet
      /\ InSphere(g, x) <= 0
\* the definition itself; needed when the links are not to be relied upon
EmptySpheres(m, dim, points, P(_)) ==
  \A i \in 1..Len(m) : LET g == Geo(m[i], dim, P) IN \A x \in points : InSphere(g, P(x)) <= 0
UsesExactly(m, dim, points) == {m[i][1 + j] : i \in 1..Len(m), j \in 1..(dim + 1)} = points

\* a Delaunay triangulation of the points, whose outline is the box lo..hi
Delaunay(m, dim, points, P(_), lo, hi) ==
  /\ UsesExactly(m, dim, points)
  /\ Solid(m, dim, P)
  /\ IF LinksOK(m, dim) THEN LocallyDelaunay(m, dim, P) ELSE EmptySpheres(m, dim, points, P)
  /\ Fills([i \in 1..Len(m) |-> Geo(m[i], dim, P)], lo, hi)
=============================================================================
