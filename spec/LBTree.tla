------------------------------- MODULE LBTree -------------------------------
(* Partition trees of the load balancers.  A tree is a sequence of nodes in preorder; a node is
   [p |-> index of the parent (0: root), leaf, lo, hi |-> corners of its bounds, v |-> its point ids if a leaf].
   Operators: what a tree of given points has to satisfy, and what flattening and collecting it yields.
   Model: a tree grows by splitting leaves; RULE says where a point on the cutting plane goes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

LeavesOf(t) == {i \in 1..Len(t) : t[i].leaf}
RECURSIVE Path(_, _)
Path(t, i) == IF i = 0 THEN {} ELSE {i} \cup Path(t, t[i].p)
Under(t, i) == {j \in LeavesOf(t) : i \in Path(t, j)}
Kids(t, i) == SelectSeq([j \in 1..Len(t) |-> j], LAMBDA j : t[j].p = i)
WellFormed(t) == /\ Len(t) >= 1 /\ t[1].p = 0
                 /\ \A i \in 2..Len(t) : t[i].p \in 1..(i - 1) /\ ~t[t[i].p].leaf
                 /\ \A i \in 1..Len(t) : t[i].leaf \/ t[i].v = {}

\* every finite point in exactly one leaf, the corners in every leaf, nothing else
Covers(t, fin, art) ==
  /\ \A i \in LeavesOf(t) : art \subseteq t[i].v
  /\ UNION {t[i].v : i \in LeavesOf(t)} \subseteq fin \cup art
  /\ fin \subseteq UNION {t[i].v : i \in LeavesOf(t)}
  /\ Cardinality(fin) = FoldFunction(+, 0, [i \in LeavesOf(t) |-> Cardinality(t[i].v \ art)])
Inside(x, n) == \A k \in DOMAIN x : n.lo[k] <= x[k] /\ x[k] <= n.hi[k]
Bounded(t, art, coord(_)) ==
  \A i \in LeavesOf(t) : LET P == Path(t, i) IN \A v \in t[i].v \ art : \A j \in P : Inside(coord(v), t[j])

Flattened(t) == IF t[1].leaf THEN t
                ELSE LET L == SelectSeq(t, LAMBDA n : n.leaf) IN <<t[1]>> \o [k \in 1..Len(L) |-> [L[k] EXCEPT !.p = 1]]
Contents(t, i) == UNION {t[j].v : j \in Under(t, i)}
Collected(t) == IF t[1].leaf THEN t ELSE <<[t[1] EXCEPT !.leaf = TRUE, !.v = Contents(t, 1)]>>

\* ---------------------------------------------------------------- the model: points 1..N on a line, one corner 0
CONSTANTS N, DEPTH, RULE
VARIABLE tree
Fin == 1..N
Art == {0}
Pos == [i \in Fin |-> (i + 1) \div 2]                     \* some points share a position
Coord(i) == <<Pos[i]>>
Node(p, lo, hi, v) == [p |-> p, leaf |-> TRUE, lo |-> <<lo>>, hi |-> <<hi>>, v |-> v]
Init == tree = <<Node(0, 1, Pos[N], Fin \cup Art)>>
Left(S, x) == IF RULE = "open" THEN {i \in S : Pos[i] < x} ELSE {i \in S : Pos[i] <= x}
Right(S, x) == CASE RULE = "else" -> S \ Left(S, x)
                 [] RULE = "closed" -> {i \in S : Pos[i] >= x}
                 [] RULE = "open" -> {i \in S : Pos[i] > x}
Shift(t, i) == [j \in 1..Len(t) |-> IF t[j].p > i THEN [t[j] EXCEPT !.p = @ + 2] ELSE t[j]]
Split(i, x) ==
  LET S == tree[i].v \ Art
      t == Shift(tree, i)
      l == Node(i, tree[i].lo[1], x, Left(S, x) \cup Art)
      r == Node(i, x, tree[i].hi[1], Right(S, x) \cup Art)
  IN SubSeq(t, 1, i - 1) \o <<[t[i] EXCEPT !.leaf = FALSE, !.v = {}], l, r>> \o SubSeq(t, i + 1, Len(t))
Next == \E i \in LeavesOf(tree) : /\ Cardinality(Path(tree, i)) <= DEPTH
                                  /\ \E x \in tree[i].lo[1]..tree[i].hi[1] : tree' = Split(i, x)
Spec == Init /\ [][Next]_tree

\* flattening and collecting by the recursion of the code
RECURSIVE FlatWalk(_, _), CollWalk(_, _)
FlatWalk(t, i) == IF t[i].leaf THEN <<t[i]>> ELSE FlattenSeq([k \in 1..Len(Kids(t, i)) |-> FlatWalk(t, Kids(t, i)[k])])
CollWalk(t, i) == IF t[i].leaf THEN t[i].v ELSE UNION {CollWalk(t, Kids(t, i)[k]) : k \in 1..Len(Kids(t, i))}
CoverInv == WellFormed(tree) /\ Covers(tree, Fin, Art) /\ Bounded(tree, Art, Coord)
FlatInv == LET f == Flattened(tree) IN
           /\ WellFormed(f) /\ Covers(f, Fin, Art)
           /\ tree[1].leaf \/ [k \in 1..(Len(f) - 1) |-> f[k + 1].v] = [k \in 1..Len(FlatWalk(tree, 1)) |-> FlatWalk(tree, 1)[k].v]
CollInv == LET c == Collected(tree) IN Len(c) = 1 /\ c[1].v = CollWalk(tree, 1) /\ Fin \subseteq c[1].v
=============================================================================
