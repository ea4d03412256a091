---------------------------- MODULE LBTreeTrace ----------------------------
(* Histories of the load-balancing partitioners (C06): the points, then the trees made of them, and what
   copying, flattening, collecting and converting each tree yields. *)
EXTENDS LBTree, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, pts, ok
vars == <<h, l, pts, tree, ok>>
Ev == Hist[h].ev[l]
More == l <= Len(Hist[h].ev) /\ l' = l + 1 /\ h' = h
TInit == h \in 1..Len(Hist) /\ l = 1 /\ pts = [d |-> 0] /\ tree = <<>> /\ ok = TRUE

Ran(s) == {s[i] : i \in 1..Len(s)}
Tree(ns) == [i \in 1..Len(ns) |-> [ns[i] EXCEPT !.v = Ran(@)]]
NoRepeat(ns) == \A i \in 1..Len(ns) : Cardinality(Ran(ns[i].v)) = Len(ns[i].v)
TFin == 1..Len(pts.p)
TArt == {pts.base + i - 1 : i \in 1..Len(pts.inf)}
At(v) == pts.p[v]

TPts == More /\ Ev.e = "pts" /\ pts' = Ev /\ tree' = <<>> /\ ok' = Ev.exact
TStart == More /\ Ev.e = "start" /\ UNCHANGED <<pts, tree>> /\ ok' = TRUE
TTree == /\ More /\ Ev.e = "tree" /\ UNCHANGED pts
         /\ tree' = Tree(Ev.nodes)
         /\ ok' = (NoRepeat(Ev.nodes) /\ WellFormed(tree') /\ Covers(tree', TFin, TArt) /\ Bounded(tree', TArt, At))
TCopy == More /\ Ev.e = "copy" /\ UNCHANGED <<pts, tree>> /\ ok' = (Tree(Ev.a) = tree /\ Tree(Ev.b) = tree)
TFlat == More /\ Ev.e = "flat" /\ UNCHANGED <<pts, tree>> /\ ok' = (Tree(Ev.nodes) = Flattened(tree))
TColl == More /\ Ev.e = "coll" /\ UNCHANGED <<pts, tree>> /\ ok' = (Tree(Ev.nodes) = Collected(tree))
OldOK(ps) ==
  LET K == Kids(tree, 1) IN
  /\ ~tree[1].leaf /\ Len(ps) = Len(K)
  /\ \A k \in 1..Len(K) : LET n == tree[K[k]] IN
       /\ ps[k].id = k - 1 /\ Ran(ps[k].v) = Contents(tree, K[k])
       /\ ps[k].lo = n.lo /\ ps[k].hi = n.hi /\ ps[k].c = [lo |-> n.lo, hi |-> n.hi]
TOld == More /\ Ev.e = "old" /\ UNCHANGED <<pts, tree>> /\ ok' = OldOK(Ev.parts)
TOther == More /\ Ev.e \notin {"pts", "start", "tree", "copy", "flat", "coll", "old"} /\ ok' = FALSE /\ UNCHANGED <<pts, tree>>
TNext == ok /\ (TPts \/ TStart \/ TTree \/ TCopy \/ TFlat \/ TColl \/ TOld \/ TOther)
Accepted == ok
TSpec == TInit /\ [][TNext]_vars
=============================================================================
