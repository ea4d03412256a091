-------------------------- MODULE SampleGraphTrace --------------------------
(* Histories of the sampler (C31): the points, then for each call the sample, its graph in compressed rows,
   the blocks chosen for it, and the triangulation it was made of. *)
EXTENDS Mesh, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, pts, smp, ok
vars == <<h, l, pts, smp, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
NoPts == [d |-> 0]
NoSample == [e |-> "none"]
Init == h \in 1..Len(Hist) /\ l = 1 /\ pts = NoPts /\ smp = NoSample /\ ok = TRUE

Ran(s) == {s[i] : i \in 1..Len(s)}
Coord(v) == IF v >= pts.base THEN pts.inf[v - pts.base + 1] ELSE pts.p[v]

\* the Delaunay triangulation of the points V alone: empty spheres, and open facets only where all points lie
\* on one side; no simplices at all only when the points span none
Spans(V, D) == \E t \in [1..(D + 1) -> V] : Orient([i \in 1..(D + 1) |-> Coord(t[i])]) # 0
OuterFacets(m) ==
  \A z \in Slots(m, pts.d) : Nb(m[z[1]], pts.d, z[2]) = -1 =>
    LET g == Geo(m[z[1]], pts.d, Coord)  o == Orient(g)
    IN \A v \in {x : x \in UNION {{m[i][1 + j] : j \in 1..(pts.d + 1)} : i \in 1..Len(m)}} : Orient([g EXCEPT ![z[2]] = Coord(v)]) \in {0, o}
DelaunayOf(m, V) ==
  /\ Distinct(m)
  /\ IF m = <<>> THEN ~Spans(V, pts.d)
     ELSE /\ UsesExactly(m, pts.d, V)
          /\ Solid(m, pts.d, Coord) /\ EmptySpheres(m, pts.d, V, Coord)
          /\ LinksOK(m, pts.d) /\ OuterFacets(m)

\* the sample: so many of the given points as asked for, one node each
Nodes(e) == Len(e.points)
IdOf(e, k) == CHOOSE v \in Ran(e.given) : pts.p[v] = e.points[k]
SampleOK(e) ==
  /\ \A k \in 1..Nodes(e) : \E v \in Ran(e.given) : pts.p[v] = e.points[k]
  /\ Cardinality(Ran(e.points)) = Nodes(e)
  /\ Nodes(e) = (LET w == IF e.want = 0 THEN 1 ELSE e.want IN IF w < Len(e.given) THEN w ELSE Len(e.given))
  /\ e.size = Nodes(e)
\* the rows
RowsOK(e) ==
  /\ Len(e.xadj) = Nodes(e) + 1 /\ e.xadj[1] = 0 /\ e.xadj[Nodes(e) + 1] = Len(e.adj) /\ Len(e.w) = Len(e.adj)
  /\ \A k \in 1..Nodes(e) : e.xadj[k] <= e.xadj[k + 1]
  /\ \A i \in 1..Len(e.adj) : e.adj[i] \in 0..(Nodes(e) - 1)
Row(e, k) == (e.xadj[k] + 1)..e.xadj[k + 1]
Entries(e) == {<<k, e.adj[i] + 1>> : <<k, i>> \in {<<a, b>> \in (1..Nodes(e)) \X (1..Len(e.adj)) : b \in Row(e, a)}}
\* the blocks are those the graph partitioner returned for as many blocks as asked for
PartOK(e) ==
  IF e.parts <= 1 THEN e.part = [k \in 1..Nodes(e) |-> 0]
  ELSE /\ e.blocks = e.parts /\ e.part = e.asked /\ Len(e.part) = Nodes(e)
       /\ e.cx = e.xadj /\ e.ca = e.adj                          \* it was asked about this very graph
       /\ IF e.f = 0 THEN e.cw \in {<<>>, e.w} ELSE e.cw = e.w

\* weights fall (f = 1) or grow (f = 2) linearly with the squared distance, from 1 to 99
PLow == [k \in 1..pts.d |-> Min({pts.p[i][k] : i \in 1..Len(pts.p)})]
PHigh == [k \in 1..pts.d |-> Max({pts.p[i][k] : i \in 1..Len(pts.p)})]
WeightOK(e, a, b, w, lo, hi) ==
  IF e.f = 0 THEN w = 1
  ELSE LET x == Share(98, a, b, lo, hi)
           y == IF e.f = 1 THEN 98 - x ELSE x
       IN w \in 1..99 /\ w - 1 \in (y - 1)..(y + 1)        \* rounded
GraphOK(e, m) ==
  LET ids == [k \in 1..Nodes(e) |-> IdOf(e, k)]
      used == {{t[1 + i], t[1 + j]} : <<t, i, j>> \in {<<x, a, b>> \in Ran(m) \X (1..(pts.d + 1)) \X (1..(pts.d + 1)) : a < b}}
      edges == used
  IN /\ {{ids[p[1]], ids[p[2]]} : p \in Entries(e)} = edges
     /\ Cardinality(Entries(e)) = 2 * Cardinality(edges)          \* both directions ...
     /\ Len(e.adj) = 2 * Cardinality(edges)                   \* ... once each
     /\ LET lo == PLow  hi == PHigh IN
        \A k \in 1..Nodes(e) : \A i \in Row(e, k) : WeightOK(e, e.points[k], e.points[e.adj[i] + 1], e.w[i], lo, hi)

TPts == More /\ Ev.e = "pts" /\ pts' = Ev /\ smp' = NoSample /\ ok' = Ev.exact
TStart == More /\ Ev.e = "start" /\ UNCHANGED <<pts, smp>> /\ ok' = TRUE
TSample == More /\ Ev.e = "sample" /\ smp = NoSample /\ smp' = Ev /\ ok' = (SampleOK(Ev) /\ RowsOK(Ev) /\ PartOK(Ev)) /\ UNCHANGED pts
TMesh == /\ More /\ Ev.e = "mesh" /\ smp # NoSample
         /\ ok' = (DelaunayOf(Ev.s, {IdOf(smp, k) : k \in 1..Nodes(smp)}) /\ GraphOK(smp, Ev.s))
         /\ smp' = NoSample /\ UNCHANGED pts
\* a large sample seen through some rows: the row of a node is its neighbours in the simplices at the node, and the
\* number of entries is the one Euler's formula gives for a triangulation of so many points
EdgesByEuler(e) ==
  IF e.d = 2 THEN (3 * e.total + e.open) \div 2
  ELSE e.nodes + (4 * e.total + e.open) \div 2 - e.total - 1
RowsOfBig(e) ==
  /\ e.nodes = e.given /\ e.size = e.nodes /\ e.named = e.nodes
  /\ e.d = 2 => e.nodes - EdgesByEuler(e) + e.total = 1
  /\ e.last = e.len /\ e.len = 2 * EdgesByEuler(e)
  /\ \A r \in Ran(e.rows) :
       LET k == r[1]  row == {r[i] : i \in 2..Len(r)}
       IN /\ Cardinality(row) = Len(r) - 1
          /\ row = UNION {Ran(s) : s \in {t \in Ran(e.simp) : k \in Ran(t)}} \ {k}
TRows == More /\ Ev.e = "rows" /\ smp = NoSample /\ ok' = RowsOfBig(Ev) /\ UNCHANGED <<pts, smp>>
TOther == More /\ Ev.e \notin {"pts", "start", "sample", "mesh", "rows"} /\ ok' = FALSE /\ UNCHANGED <<pts, smp>>
Next == ok /\ (TPts \/ TStart \/ TSample \/ TMesh \/ TRows \/ TOther)
Accepted == ok
TSpec == Init /\ [][Next]_vars
=============================================================================
