------------------------------ MODULE GenTrace ------------------------------
(* Histories of the point generators and of the spatial sort (C28).
   gen  : n points asked of a generator by name within lo..hi, twice with the same seed; its points p, q by id
   sort : points before and after sorting, and the artificial points before and after *)
EXTENDS FloatGeom, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
vars == <<h, l, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE

LE(x, y) == OrientF(<<<<x>>, <<y>>>>) <= 0
Inside(x, lo, hi) == \A k \in 1..Len(lo) : LE(lo[k], x[k]) /\ LE(x[k], hi[k])
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Permuted(s, t) == /\ Len(s) = Len(t)
                  /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])

TGen == /\ More /\ Ev.e = "gen"
        /\ ok' = (/\ Ev.kind = Ev.name                     \* the generator asked for
                  /\ Len(Ev.p) = Ev.n                      \* ids 1..n and no others
                  /\ \A i \in 1..Ev.n : Inside(Ev.p[i], Ev.lo, Ev.hi)
                  /\ Ev.p = Ev.q)                          \* reproducible
TSort == More /\ Ev.e = "sort" /\ ok' = (Permuted(Ev.p, Ev.q) /\ Ev.c = Ev.c2)
TStart == More /\ Ev.e = "start" /\ ok' = TRUE
TOther == More /\ Ev.e \notin {"gen", "sort", "start"} /\ ok' = FALSE
Next == ok /\ (TGen \/ TSort \/ TStart \/ TOther)
Accepted == ok
TSpec == Init /\ [][Next]_vars
=============================================================================
