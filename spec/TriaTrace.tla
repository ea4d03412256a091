------------------------------ MODULE TriaTrace ------------------------------
(* Histories of the divide-and-conquer triangulators: a point set, then the meshes returned for it in several
   configurations.  VIEW = "delaunay" decides C01 / C02 (the right simplices), VIEW = "links" decides C03. *)
EXTENDS Mesh, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
View == IOEnv.VIEW
VARIABLES h, l, pts, ref, ok
vars == <<h, l, pts, ref, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
NoPts == [d |-> 0]
Init == h \in 1..Len(Hist) /\ l = 1 /\ pts = NoPts /\ ref = {} /\ ok = TRUE

TPts == More /\ Ev.e = "pts" /\ pts' = Ev /\ ref' = {} /\ ok' = Ev.exact

Coord(v) == IF v >= pts.base THEN pts.inf[v - pts.base + 1] ELSE pts.p[v]
AllIds == (1..Len(pts.p)) \cup {pts.base + i - 1 : i \in 1..Len(pts.inf)}
Known(m) == \A i \in 1..Len(m) : \A j \in 1..(pts.d + 1) : m[i][1 + j] \in AllIds
Low == [k \in 1..pts.d |-> Min({pts.inf[i][k] : i \in 1..Len(pts.inf)})]
High == [k \in 1..pts.d |-> Max({pts.inf[i][k] : i \in 1..Len(pts.inf)})]
Simplices(m) == {VSeq(m[i], pts.d) : i \in 1..Len(m)}

\* the artificial points are the corners of a box strictly around all points
Surrounded == \A i \in 1..Len(pts.p) : \A k \in 1..pts.d : Low[k] < pts.p[i][k] /\ pts.p[i][k] < High[k]

LinksView(e) == e.bad = <<>> /\ Known(e.s) /\ Links(e.s, pts.d, pts.base, e.hull)
DelaunayView(e) ==
  /\ Known(e.s) /\ Distinct(e.s)
  /\ Delaunay(e.s, pts.d, AllIds, Coord, Low, High)
  /\ ref = {} \/ ref = Simplices(e.s)

TMesh == /\ More /\ Ev.e = "mesh" /\ pts # NoPts
         /\ ok' = IF View = "links" THEN LinksView(Ev) ELSE DelaunayView(Ev)
         /\ ref' = IF ref = {} /\ Known(Ev.s) THEN Simplices(Ev.s) ELSE ref
         /\ UNCHANGED pts
TStart == More /\ Ev.e = "start" /\ UNCHANGED <<pts, ref>> /\ ok' = TRUE
TOther == More /\ Ev.e \notin {"pts", "mesh", "start"} /\ ok' = (View = "links") /\ UNCHANGED <<pts, ref>>
TEarly == More /\ Ev.e = "mesh" /\ pts = NoPts /\ ok' = FALSE /\ UNCHANGED <<pts, ref>>
Next == ok /\ (TPts \/ TMesh \/ TStart \/ TOther \/ TEarly)
Accepted == ok
TSpec == Init /\ [][Next]_vars
=============================================================================
