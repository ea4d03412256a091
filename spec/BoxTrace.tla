------------------------------ MODULE BoxTrace ------------------------------
(* Answers of the box, ball and grid primitives (C21).  Coordinates are logged as integers, the code saw them
   multiplied with a power of two. *)
EXTENDS Boxes, FloatGeom, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
vars == <<h, l, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE

\* comparison of floating point numbers
Before(a, b) == OrientF(<< <<b>>, <<a>> >>) > 0
Leq(a, b) == ~Before(b, a)
\* d: double the coordinates (the code computes with middles)
Dbl(p) == [i \in Dims(p) |-> 2 * p[i]]
OK(k, t) ==
  CASE k = "point" -> t[4] = PointIn(t[1], t[2], t[3])
    [] k = "box"   -> t[5] = BoxIn(t[1], t[2], t[3], t[4])
    [] k = "within" -> t[5] = BallIn(t[1], t[2], t[3], t[4])
    [] k = "meets" -> t[5] = BallMeets(t[1], t[2], t[3], t[4])
    [] k = "same"  -> t[5] = (t[1] = t[3] /\ t[2] = t[4])
    [] k = "rest"  -> <<t[5], t[6]>> = Rest(t[1], t[2], t[3], t[4])
    [] k = "split" -> /\ t[5] = t[1] /\ t[6] = [t[2] EXCEPT ![t[3]] = t[4]]
                      /\ t[7] = [t[1] EXCEPT ![t[3]] = t[4]] /\ t[8] = t[2]
    [] k = "around" -> <<t[4], t[5]>> = Around(t[1], t[2], t[3])
    [] k = "hull"  -> <<t[2], t[3]>> = Hull(t[1])
    \* vector from a box: its length is the distance
    [] k = "away"  -> t[4] = Away(t[1], t[2], t[3])
    \* vector to the border of a box: as before outside; inside, its length is the distance to the nearest face
    [] k = "border" -> IF PointIn(t[1], t[2], t[3]) /\ BorderDist(t[1], t[2], t[3]) # 0
                       THEN Sq(t[4]) = BorderDist(t[1], t[2], t[3]) * BorderDist(t[1], t[2], t[3])
                       ELSE t[4] = Away(t[1], t[2], t[3])
    [] k = "cell"  -> t[3] = CellOf(t[1], t[2]) /\ InCell(t[1], t[3], t[2])
    [] k = "bounds" -> t[3] = CellLow(t[1], t[2]) /\ t[4] = CellHigh(t[1], t[2])
    [] k = "centre" -> Dbl(t[3]) = [d \in Dims(t[2]) |-> (2 * t[2][d] + 1) * t[1]]
    [] k = "cellmeets" -> t[5] = BallMeets(CellLow(t[1], t[2]), CellHigh(t[1], t[2]), t[3], t[4])
    \* any width: the cell of a point contains it, as its bounds say
    [] k = "incell" -> \A d \in Dims(t[1]) : Leq(t[2][d], t[1][d]) /\ Before(t[1][d], t[3][d])
    \* neighbouring cells share their border
    [] k = "touch" -> t[1] = t[2]
    [] OTHER -> FALSE
TGeom == More /\ Ev.e = "geom" /\ ok' = \A i \in 1..Len(Ev.t) : OK(Ev.k, Ev.t[i])
TOther == More /\ Ev.e # "geom" /\ ok' = FALSE
Next == ok /\ (TGeom \/ TOther)
Accepted == ok
TSpec == Init /\ [][Next]_vars
=============================================================================
