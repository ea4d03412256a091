------------------------------- MODULE DCModel -------------------------------
(* The divide-and-conquer algorithm of src/lib/DCTriangulator.cpp on small integer point sets in the plane:
   triangulate the parts, walk inward from their hulls to find the simplices whose circumsphere reaches
   another part (getEdge), triangulate the points of those anew, exchange the simplices, and repair the
   neighbour links outward from the inserted simplices (buildWhereUsed, updateNeighbors).  The walks take
   their work lists in any order.  Delaunay triangulations of the parts are given by the definition.

   Invariants: when the algorithm ends, the simplices are exactly the Delaunay triangulation of all points
   and the artificial corners, and the links are exactly the adjacencies.  The constants switch off single
   ingredients of the algorithm; without them the invariants fail (the controls). *)
EXTENDS ExactGeom, TLC

CONSTANTS W, H, N, Big,       \* N points of the grid 0..W x 0..H; the corners lie Big outside of it
          Axis,               \* the axis that is cut
          WholeWalk,          \* the walk goes on over neighbours (FALSE: only the hull is inspected)
          KeepOld,            \* a simplex of one part found again in the border triangulation is inserted
          AnyOrder,           \* the walks take their work in any order (FALSE: in one fixed order)
          FirstLayer          \* the where-used table has the inward neighbours of the border

Corners == {<<-Big, -Big>>, <<W + Big, -Big>>, <<-Big, H + Big>>, <<W + Big, H + Big>>}
Grid == {<<x, y>> : x \in 0..W, y \in 0..H}
Seq3(V) == SetToSeq(V)

Triples(S) == kSubset(3, S)
GeneralPosition(S) ==
  /\ \A V \in Triples(S \cup Corners) : Orient(Seq3(V)) # 0
  /\ \A V \in Triples(S \cup Corners) : V \cap S # {} => \A q \in S : q \notin V => InSphere(Seq3(V), q) # 0
DT(S) == IF S = {} THEN {Corners \ {<<-Big, -Big>>}, Corners \ {<<W + Big, H + Big>>}}
         ELSE {V \in Triples(S \cup Corners) : \A q \in (S \cup Corners) \ V : InSphere(Seq3(V), q) <= 0}

\* the inputs: all sets of N grid points, or (N = 0) some in which interior simplices have to go
Hard == {{<<8, 2>>, <<6, 7>>, <<0, 6>>, <<3, 4>>, <<6, 5>>, <<3, 6>>, <<4, 2>>, <<1, 1>>},
         {<<4, 0>>, <<0, 3>>, <<5, 4>>, <<7, 1>>, <<2, 5>>, <<8, 2>>, <<5, 7>>, <<9, 4>>},
         {<<9, 2>>, <<0, 4>>, <<8, 5>>, <<8, 7>>, <<7, 4>>, <<6, 0>>, <<1, 1>>, <<7, 6>>},
         {<<8, 2>>, <<0, 7>>, <<4, 0>>, <<6, 7>>, <<9, 6>>, <<9, 2>>, <<8, 0>>, <<2, 3>>},
         {<<1, 1>>, <<0, 3>>, <<3, 0>>, <<4, 1>>, <<7, 5>>, <<7, 0>>, <<0, 5>>, <<5, 6>>},
         {<<8, 5>>, <<1, 7>>, <<2, 1>>, <<0, 2>>, <<6, 6>>, <<9, 6>>, <<5, 0>>, <<3, 2>>},
         {<<7, 3>>, <<4, 6>>, <<1, 3>>, <<8, 7>>, <<8, 5>>, <<4, 4>>, <<2, 6>>, <<7, 0>>}}

VARIABLES pts, cut,           \* the input
          dt,                 \* simplices by id: <<origin, vertices>>; origin 1, 2 = part, 0 = border
          todo, seen, edge,   \* walk; edge = simplices that are taken out
          live, nb, wu,       \* result: ids, links, where-used table
          phase
vars == <<pts, cut, dt, todo, seen, edge, live, nb, wu, phase>>

Part(i) == {p \in pts : IF i = 1 THEN p[Axis] <= cut ELSE p[Axis] > cut}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Lo(k) == MinS({p[k] : p \in pts})
Hi(k) == MaxS({p[k] : p \in pts})
\* both parts' bounds include the cut
Low(i) == [k \in 1..2 |-> IF k = Axis /\ i = 2 THEN cut ELSE Lo(k)]
High(i) == [k \in 1..2 |-> IF k = Axis /\ i = 1 THEN cut ELSE Hi(k)]

OnHull(x) == x[2] \cap Corners # {}
Adjacent(x, y) == x # y /\ Cardinality(x[2] \cap y[2]) = 2

Init ==
  /\ pts \in (IF N = 0 THEN Hard ELSE kSubset(N, Grid))
  /\ GeneralPosition(pts)
  /\ cut \in Lo(Axis)..Hi(Axis)
  /\ dt = {<<i, V>> : i \in {1}, V \in DT(Part(1))} \cup {<<i, V>> : i \in {2}, V \in DT(Part(2))}
  /\ todo = {x \in dt : OnHull(x)} /\ seen = todo
  /\ edge = {} /\ live = {} /\ nb = <<>> /\ wu = {} /\ phase = "walk"

Reaches(x) == BallMeetsBox(Seq3(x[2]), Low(3 - x[1]), High(3 - x[1]))
Neighbours(x) == {y \in dt : y[1] = x[1] /\ Adjacent(x, y)}

Visit(x) ==
  /\ phase = "walk"
  /\ IF Reaches(x)
     THEN LET new == IF WholeWalk THEN Neighbours(x) \ seen ELSE {}
          IN edge' = edge \cup {x} /\ seen' = seen \cup new /\ todo' = (todo \ {x}) \cup new
     ELSE todo' = todo \ {x} /\ UNCHANGED <<edge, seen>>
  /\ UNCHANGED <<pts, cut, dt, live, nb, wu, phase>>

PartOf(p) == IF p \in Part(1) THEN {1} ELSE IF p \in Part(2) THEN {2} ELSE {1, 2}
OnePart(V) == \E i \in 1..2 : \A p \in V : i \in PartOf(p)
None == <<3, {}>>
\* the neighbour across the facet without v among `ids`
Across(x, v, ids) == LET c == {y \in ids : y[1] = x[1] /\ y # x /\ x[2] \ {v} \subseteq y[2]}
                     IN IF c = {} THEN None ELSE CHOOSE y \in c : TRUE

Merge ==
  /\ phase = "walk" /\ todo = {}
  /\ LET border == UNION {x[2] : x \in edge} \ Corners
         eDT == {<<0, V>> : V \in DT(border)}
         taken == {x[2] : x \in edge}
         ins == {x \in eDT : ~OnePart(x[2]) \/ (KeepOld /\ x[2] \in taken)}
         keep == dt \ edge
         layer == IF FirstLayer THEN {y \in keep : \E x \in edge : x[1] = y[1] /\ Adjacent(x, y)} ELSE {}
     IN /\ live' = keep \cup ins
        /\ nb' = [x \in keep \cup ins |-> [v \in x[2] |-> Across(x, v, IF x[1] = 0 THEN eDT ELSE dt)]]
        /\ wu' = ins \cup layer
        /\ todo' = ins /\ seen' = ins
  /\ phase' = "links"
  /\ UNCHANGED <<pts, cut, dt, edge>>

\* keep the link, or look the facet up
Repaired(x) ==
  [v \in x[2] |->
     LET n == nb[x][v] IN
     IF n # None /\ n \in live /\ Cardinality(n[2] \cap x[2]) = 2 THEN n
     ELSE LET c == {y \in wu : y \in live /\ y # x /\ x[2] \ {v} \subseteq y[2] /\ v \notin y[2]}
          IN IF c = {} THEN None ELSE CHOOSE y \in c : TRUE]
Fix(x) ==
  /\ phase = "links"
  /\ LET r == Repaired(x)
         found == {r[v] : v \in {w \in x[2] : r[w] # nb[x][w] /\ r[w] # None}}
         new == found \ seen
     IN nb' = [nb EXCEPT ![x] = r] /\ seen' = seen \cup new /\ todo' = (todo \ {x}) \cup new
  /\ UNCHANGED <<pts, cut, dt, edge, live, wu, phase>>

Finish == phase = "links" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<pts, cut, dt, todo, seen, edge, live, nb, wu>>
Turn == IF AnyOrder \/ todo = {} THEN todo ELSE {CHOOSE x \in todo : TRUE}
DoVisit == \E x \in Turn : Visit(x)
DoFix == \E x \in Turn : Fix(x)
Next == DoVisit \/ Merge \/ DoFix \/ Finish \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Right == phase = "done" =>
  /\ {x[2] : x \in live} = DT(pts)
  /\ Cardinality(live) = Cardinality(DT(pts))
LinksRight == phase = "done" =>
  \A x \in live : \A v \in x[2] :
    nb[x][v] = LET c == {y \in live : y # x /\ x[2] \ {v} \subseteq y[2]} IN IF c = {} THEN None ELSE CHOOSE y \in c : TRUE
=============================================================================
