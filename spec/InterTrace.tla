----------------------------- MODULE InterTrace -----------------------------
(* Answers of the border tests of the load balancers (C07).
   parts  : the parts a maker made of the ids assigned with `to` (-1: not among the ids), with the bounds reported
   balls  : integer balls against every part: never "no" when a point of the part lies in the closed ball; grid
            checkers name every occupied cell the ball meets, and only occupied cells
   spheres: circumspheres of simplices of the points: never "no" when a point of the part is in or on it
   tree   : unit cells put into a box tree, and balls asked of it *)
EXTENDS Boxes, ExactGeom, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, pts, parts, ok
vars == <<h, l, pts, parts, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
Init == h \in 1..Len(Hist) /\ l = 1 /\ pts = [d |-> 0] /\ parts = <<>> /\ ok = TRUE
Ran(s) == {s[i] : i \in 1..Len(s)}

TPts == More /\ Ev.e = "pts" /\ pts' = Ev /\ UNCHANGED <<parts, ok>>
Fin(q) == {v \in Ran(q.v) : v < pts.base}
PartsOK(e) ==
  /\ e.exact
  /\ \A i \in 1..Len(e.parts) :
       LET q == e.parts[i] IN
       /\ Fin(q) = {v \in 1..Len(pts.p) : e.to[v] = i - 1}
       /\ Ran(q.v) \ Fin(q) = pts.base..(pts.base + pts.ninf - 1)
       /\ q.size = Len(q.v) /\ Len(q.v) = Cardinality(Ran(q.v))
       /\ \A v \in Fin(q) : PointIn(q.lo, q.hi, pts.p[v])
  /\ \A v \in 1..Len(pts.p) : e.to[v] < Len(e.parts)
TParts == More /\ Ev.e = "parts" /\ ok' = PartsOK(Ev) /\ UNCHANGED pts
          /\ parts' = [i \in 1..Len(Ev.parts) |-> Fin(Ev.parts[i])]
Occupied(S) == {CellOf(pts.w, pts.p[v]) : v \in S}
CellsOK(w, occ, t, cells) ==
  /\ Ran(cells) \subseteq occ
  /\ \A x \in occ : BallMeets(CellLow(w, x), CellHigh(w, x), t.c, t.r) => x \in Ran(cells)
TBalls == More /\ Ev.e = "balls" /\ UNCHANGED <<pts, parts>>
          /\ ok' = \A k \in 1..Len(Ev.q) : LET t == Ev.q[k] IN
                     \A i \in 1..Len(parts) :
                       /\ (\E v \in parts[i] : InBall(t.c, t.r, pts.p[v])) => t.a[i]
                       /\ Ev.cells => CellsOK(pts.w, Occupied(parts[i]), t, t.cells[i])
Simplex(v) == [i \in 1..Len(v) |-> pts.p[v[i]]]
TSpheres == More /\ Ev.e = "spheres" /\ UNCHANGED <<pts, parts>>
            /\ ok' = \A k \in 1..Len(Ev.q) : LET t == Ev.q[k] IN
                       /\ Orient(Simplex(t.v)) # 0
                       /\ \A i \in 1..Len(parts) :
                            (\E v \in parts[i] : InSphere(Simplex(t.v), pts.p[v]) >= 0) => t.a[i]
TTree == More /\ Ev.e = "tree" /\ UNCHANGED <<pts, parts>>
         /\ LET occ == {Ev.in[i].c : i \in 1..Len(Ev.in)} IN
            ok' = (/\ \A i \in 1..Len(Ev.in) : Ev.in[i].ok
                   /\ \A k \in 1..Len(Ev.q) : LET t == Ev.q[k] IN
                        /\ (\E x \in occ : BallMeets(CellLow(Ev.w, x), CellHigh(Ev.w, x), t.c, t.r)) => t.a
                        /\ CellsOK(Ev.w, occ, t, t.cells))
TOther == More /\ Ev.e \notin {"pts", "parts", "balls", "spheres", "tree"} /\ ok' = FALSE /\ UNCHANGED <<pts, parts>>
Next == ok /\ (TPts \/ TParts \/ TBalls \/ TSpheres \/ TTree \/ TOther)
Accepted == ok
TSpec == Init /\ [][Next]_vars
=============================================================================
