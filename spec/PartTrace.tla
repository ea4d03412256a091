------------------------------ MODULE PartTrace ------------------------------
(* Histories of the point partitioners and of the extents they are based on.
   split : the ids `ids` were split into `parts`, each with bounds and members (C05)
   within: whether all / some of the vertices vs are in a part of the last split
   stats : extents computed over some ids; file : points and extents read from a file (C22) *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, FiniteSetsExt
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, pts, parts, ok
vars == <<h, l, pts, parts, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
Init == h \in 1..Len(Hist) /\ l = 1 /\ pts = [d |-> 0] /\ parts = <<>> /\ ok = TRUE

Ran(s) == {s[i] : i \in 1..Len(s)}
IsFinite(v) == v < pts.base
Coord(v) == IF IsFinite(v) THEN pts.p[v] ELSE pts.inf[v - pts.base + 1]
Artificial == {pts.base + i - 1 : i \in 1..Len(pts.inf)}
Axes == 1..pts.d

TPts == More /\ Ev.e = "pts" /\ pts' = Ev /\ parts' = <<>> /\ ok' = Ev.exact

Inside(v, q) == \A k \in Axes : q.lo[k] <= pts.p[v][k] /\ pts.p[v][k] <= q.hi[k]
SplitOK(e) ==
  LET ids == Ran(e.ids)
      fin == {v \in ids : IsFinite(v)}
      P == [i \in 1..Len(e.parts) |-> Ran(e.parts[i].v)]
      F == [i \in 1..Len(e.parts) |-> {v \in P[i] : IsFinite(v)}]
      rest == IF e.ign THEN {} ELSE Artificial
  IN /\ UNION {F[i] : i \in DOMAIN F} = fin                                             \* no point lost or invented
     /\ \A i, j \in DOMAIN F : i # j => F[i] \cap F[j] = {}                             \* in exactly one part
     /\ \A i \in DOMAIN P : P[i] \ F[i] = rest                                          \* corners everywhere
     /\ \A i \in DOMAIN P : e.parts[i].size = Cardinality(P[i]) /\ Len(e.parts[i].v) = Cardinality(P[i])
     /\ \A i \in DOMAIN P : \A v \in F[i] : Inside(v, e.parts[i])
     /\ \A i, j \in DOMAIN P : i # j => e.parts[i].id # e.parts[j].id
     /\ \A k \in 1..Len(e.where) :                                                      \* in the order of the finite ids
          \A i \in DOMAIN P : (e.ids[k] \in P[i]) <=> e.parts[i].id = e.where[k]
     /\ Len(e.where) = Cardinality(fin)
TSplit == More /\ Ev.e = "split" /\ ok' = (Ev.exact /\ SplitOK(Ev))
          /\ parts' = [i \in 1..Len(Ev.parts) |-> Ran(Ev.parts[i].v)] /\ UNCHANGED pts
TWithin == More /\ Ev.e = "within" /\ UNCHANGED <<pts, parts>>
           /\ LET q == parts[Ev.part + 1] IN
              ok' = (/\ Ev.all = (\A i \in 1..Len(Ev.vs) : Ev.vs[i] \in q)
                     /\ Ev.some = (\E i \in 1..Len(Ev.vs) : Ev.vs[i] \in q))

Extent(e, S) ==
  /\ e.exact
  /\ \A k \in Axes : LET X == {x[k] : x \in S} IN e.lo[k] = Min(X) /\ e.hi[k] = Max(X)
TStats == More /\ Ev.e = "stats" /\ UNCHANGED <<pts, parts>>
          /\ ok' = (/\ Extent(Ev, {Coord(v) : v \in {w \in Ran(Ev.ids) : ~Ev.ign \/ IsFinite(w)}})
                    /\ \A k \in Axes : 2 * Ev.mid[k] = Ev.lo[k] + Ev.hi[k])
TFile == More /\ Ev.e = "file" /\ UNCHANGED <<pts, parts>>
         /\ ok' = (Ev.p = pts.p /\ Extent(Ev, Ran(pts.p)))
TOther == More /\ Ev.e \notin {"pts", "split", "within", "stats", "file"} /\ ok' = FALSE /\ UNCHANGED <<pts, parts>>
Next == ok /\ (TPts \/ TSplit \/ TWithin \/ TStats \/ TFile \/ TOther)
Accepted == ok
TSpec == Init /\ [][Next]_vars
=============================================================================
