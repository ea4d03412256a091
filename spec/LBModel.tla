------------------------------- MODULE LBModel -------------------------------
(* The load-balanced algorithm of load_balancing/LoadBalancedDCTriangulator.cpp on small integer point sets in
   the plane.  Unlike DCModel the points go to the parts by an arbitrary assignment (graph partitioning), so
   the parts' bounds overlap, one part may lie inside another, and a part may get no point at all.  Border:
   the simplices whose circumsphere reaches the bounds of another part, out of all simplices of a part.

   Invariants: when the algorithm ends, the simplices are exactly the Delaunay triangulation of all points
   and the artificial corners, and the links are exactly the adjacencies.  The constants switch off single
   ingredients of the algorithm; without them the invariants fail (the controls). *)
EXTENDS ExactGeom, TLC

CONSTANTS W, H, N, Big,       \* N points of the grid 0..W x 0..H; the corners lie Big outside of it
          P,                  \* number of parts
          Whole,              \* all simplices are tested (FALSE: a walk inward from the hull)
          DropEmpty           \* parts without points take no part in the merge
KeepOld == TRUE
FirstLayer == TRUE

Corners == {<<-Big, -Big>>, <<W + Big, -Big>>, <<-Big, H + Big>>, <<W + Big, H + Big>>}
Grid == {<<x, y>> : x \in 0..W, y \in 0..H}
Seq3(V) == SetToSeq(V)

Triples(S) == kSubset(3, S)
GeneralPosition(S) ==
  /\ \A V \in Triples(S \cup Corners) : Orient(Seq3(V)) # 0
  /\ \A V \in Triples(S \cup Corners) : V \cap S # {} => \A q \in S : q \notin V => InSphere(Seq3(V), q) # 0
DT(S) == IF S = {} THEN {Corners \ {<<-Big, -Big>>}, Corners \ {<<W + Big, H + Big>>}}
         ELSE {V \in Triples(S \cup Corners) : \A q \in (S \cup Corners) \ V : InSphere(Seq3(V), q) <= 0}

VARIABLES pts, asg,           \* the input
          dt,                 \* simplices by id: <<origin, vertices>>; origin 1..P = part, 0 = border
          todo, seen, edge,   \* walk; edge = simplices that are taken out
          live, nb, wu,       \* result: ids, links, where-used table
          phase
vars == <<pts, asg, dt, todo, seen, edge, live, nb, wu, phase>>

Part(i) == {p \in pts : asg[p] = i}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Lo(i) == [k \in 1..2 |-> MinS({p[k] : p \in Part(i)})]
Hi(i) == [k \in 1..2 |-> MaxS({p[k] : p \in Part(i)})]

OnHull(x) == x[2] \cap Corners # {}
Adjacent(x, y) == x # y /\ Cardinality(x[2] \cap y[2]) = 2

Init ==
  /\ pts \in kSubset(N, Grid)
  /\ GeneralPosition(pts)
  /\ asg \in [pts -> 1..P]
  /\ dt = UNION {{<<i, V>> : V \in DT(Part(i))} : i \in {j \in 1..P : Part(j) # {} \/ ~DropEmpty}}
  /\ todo = {x \in dt : Whole \/ OnHull(x)} /\ seen = todo
  /\ edge = {} /\ live = {} /\ nb = <<>> /\ wu = {} /\ phase = "walk"

Reaches(x) == \E i \in (1..P) \ {x[1]} : Part(i) # {} /\ BallMeetsBox(Seq3(x[2]), Lo(i), Hi(i))
Neighbours(x) == {y \in dt : y[1] = x[1] /\ Adjacent(x, y)}

Visit(x) ==
  /\ phase = "walk"
  /\ IF Reaches(x)
     THEN LET new == Neighbours(x) \ seen
          IN edge' = edge \cup {x} /\ seen' = seen \cup new /\ todo' = (todo \ {x}) \cup new
     ELSE todo' = todo \ {x} /\ UNCHANGED <<edge, seen>>
  /\ UNCHANGED <<pts, asg, dt, live, nb, wu, phase>>

PartOf(p) == IF p \in pts THEN {asg[p]} ELSE 1..P
OnePart(V) == \E i \in 1..P : \A p \in V : i \in PartOf(p)
None == <<3, {}>>
\* the neighbour across the facet without v among `ids`
Across(x, v, ids) == LET c == {y \in ids : y[1] = x[1] /\ y # x /\ x[2] \ {v} \subseteq y[2]}
                     IN IF c = {} THEN None ELSE CHOOSE y \in c : TRUE

Merge ==
  /\ phase = "walk" /\ todo = {}
  /\ LET border == UNION {x[2] : x \in edge} \ Corners
         eDT == {<<0, V>> : V \in DT(border)}
         taken == {x[2] : x \in edge}
         ins == {x \in eDT : ~OnePart(x[2]) \/ (KeepOld /\ x[2] \in taken)}
         keep == dt \ edge
         layer == IF FirstLayer THEN {y \in keep : \E x \in edge : x[1] = y[1] /\ Adjacent(x, y)} ELSE {}
     IN /\ live' = keep \cup ins
        /\ nb' = [x \in keep \cup ins |-> [v \in x[2] |-> Across(x, v, IF x[1] = 0 THEN eDT ELSE dt)]]
        /\ wu' = ins \cup layer
        /\ todo' = ins /\ seen' = ins
  /\ phase' = "links"
  /\ UNCHANGED <<pts, asg, dt, edge>>

\* keep the link, or look the facet up
Repaired(x) ==
  [v \in x[2] |->
     LET n == nb[x][v] IN
     IF n # None /\ n \in live /\ Cardinality(n[2] \cap x[2]) = 2 THEN n
     ELSE LET c == {y \in wu : y \in live /\ y # x /\ x[2] \ {v} \subseteq y[2] /\ v \notin y[2]}
          IN IF c = {} THEN None ELSE CHOOSE y \in c : TRUE]
Fix(x) ==
  /\ phase = "links"
  /\ LET r == Repaired(x)
         found == {r[v] : v \in {w \in x[2] : r[w] # nb[x][w] /\ r[w] # None}}
         new == found \ seen
     IN nb' = [nb EXCEPT ![x] = r] /\ seen' = seen \cup new /\ todo' = (todo \ {x}) \cup new
  /\ UNCHANGED <<pts, asg, dt, edge, live, wu, phase>>

Finish == phase = "links" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<pts, asg, dt, todo, seen, edge, live, nb, wu>>
Turn == IF todo = {} THEN todo ELSE {CHOOSE x \in todo : TRUE}   \* DCModel has all orders
DoVisit == \E x \in Turn : Visit(x)
DoFix == \E x \in Turn : Fix(x)
Next == DoVisit \/ Merge \/ DoFix \/ Finish \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Right == phase = "done" =>
  /\ {x[2] : x \in live} = DT(pts)
  /\ Cardinality(live) = Cardinality(DT(pts))
LinksRight == phase = "done" =>
  \A x \in live : \A v \in x[2] :
    nb[x][v] = LET c == {y \in live : y # x /\ x[2] \ {v} \subseteq y[2]} IN IF c = {} THEN None ELSE CHOOSE y \in c : TRUE
=============================================================================
