------------------------------ MODULE PredTrace ------------------------------
(* Histories of geometric predicates (C20) over floating point numbers, decided by exact determinants. *)
EXTENDS FloatGeom, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
vars == <<h, l, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE

\* <<points, sign reported, sign reported through a simplex>>
OrientOK(t) == LET o == OrientF(t[1]) IN t[2] = o /\ t[3] = o
\* <<points, point, sign reported, closed test, strict test>>
SphereOK(t) ==
  LET o == OrientF(t[1])  i == LiftedF(t[1], t[2]) IN
  /\ t[3] = i
  /\ t[4] = (o = 0 \/ o * i >= 0)                  \* through a simplex: inside or on the sphere (any sphere, if flat)
  /\ t[5] = (o = 0 \/ o * i > 0)
TOrient == More /\ Ev.e = "orient" /\ ok' = \A i \in 1..Len(Ev.t) : OrientOK(Ev.t[i])
TSphere == More /\ Ev.e = "sphere" /\ ok' = \A i \in 1..Len(Ev.t) : SphereOK(Ev.t[i])
TOther == More /\ Ev.e \notin {"orient", "sphere"} /\ ok' = FALSE
Next == ok /\ (TOrient \/ TSphere \/ TOther)
Accepted == ok
TSpec == Init /\ [][Next]_vars
=============================================================================
