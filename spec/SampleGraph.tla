---------------------------- MODULE SampleGraph ----------------------------
(* How the sampler turns a triangulation into a graph in compressed rows (Sampler::makeGraph): workers take
   simplices, put each directed edge into a shared table and, if it was new, count it for its node; after the
   sums are formed, workers take the edges from the table and put each into the next free place of its row.
   ATOMIC = FALSE: the counters are read and written in two steps; ONCE = FALSE: every occurrence is counted. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS Mesh, W, ATOMIC, ONCE
VARIABLES todo, table, deg, xadj, free, adj, job, phase
vars == <<todo, table, deg, xadj, free, adj, job, phase>>

Nodes == UNION Mesh
N == Cardinality(Nodes)
Edges(s) == {e \in s \X s : e[1] # e[2]}
Idle == [e |-> "idle"]
Init == /\ todo = Mesh /\ table = {} /\ deg = [k \in Nodes |-> 0] /\ xadj = <<>> /\ adj = <<>>
        /\ free = [k \in Nodes |-> 0] /\ job = [w \in 1..W |-> Idle] /\ phase = "count"

Take(w) == /\ phase = "count" /\ job[w] = Idle
           /\ \E s \in todo : /\ todo' = todo \ {s}
                              /\ job' = [job EXCEPT ![w] = [e |-> "insert", left |-> Edges(s)]]
           /\ UNCHANGED <<table, deg, xadj, free, adj, phase>>
Insert(w) ==
  /\ job[w].e = "insert"
  /\ LET x == CHOOSE x \in job[w].left : TRUE
         r == job[w].left \ {x}
         after == IF r = {} THEN Idle ELSE [e |-> "insert", left |-> r]
     IN /\ table' = table \cup {x}
        /\ job' = [job EXCEPT ![w] = IF x \in table /\ ONCE THEN after ELSE [e |-> "add", k |-> x[1], left |-> r]]
  /\ UNCHANGED <<todo, deg, xadj, free, adj, phase>>
Done(w) == IF job[w].left = {} THEN Idle ELSE [e |-> "insert", left |-> job[w].left]
Add(w) == /\ job[w].e = "add" /\ ATOMIC
          /\ deg' = [deg EXCEPT ![job[w].k] = @ + 1] /\ job' = [job EXCEPT ![w] = Done(w)]
          /\ UNCHANGED <<todo, table, xadj, free, adj, phase>>
Read(w) == /\ job[w].e = "add" /\ ~ATOMIC
           /\ job' = [job EXCEPT ![w] = [e |-> "write", k |-> @.k, v |-> deg[@.k], left |-> @.left]]
           /\ UNCHANGED <<todo, table, deg, xadj, free, adj, phase>>
Write(w) == /\ job[w].e = "write"
            /\ deg' = [deg EXCEPT ![job[w].k] = job[w].v + 1] /\ job' = [job EXCEPT ![w] = Done(w)]
            /\ UNCHANGED <<todo, table, xadj, free, adj, phase>>
Resting == \A w \in 1..W : job[w] = Idle
Sum == /\ phase = "count" /\ todo = {} /\ Resting
       /\ phase' = "fill" /\ todo' = table
       /\ xadj' = [k \in 1..(N + 1) |-> FoldFunction(+, 0, [i \in {j \in Nodes : j < k} |-> deg[i]])]
       /\ adj' = [i \in 1..xadj'[N + 1] |-> 0]
       /\ UNCHANGED <<table, deg, free, job>>
Fetch(w) == /\ phase = "fill" /\ job[w] = Idle
            /\ \E x \in todo : /\ todo' = todo \ {x}
                               /\ job' = [job EXCEPT ![w] = [e |-> "put", x |-> x, o |-> free[x[1]]]]
                               /\ free' = [free EXCEPT ![x[1]] = @ + 1]
            /\ UNCHANGED <<table, deg, xadj, adj, phase>>
Put(w) == /\ job[w].e = "put"
          /\ LET i == xadj[job[w].x[1]] + job[w].o + 1 IN
             adj' = IF i \in DOMAIN adj THEN [adj EXCEPT ![i] = job[w].x[2]] ELSE Append(adj, -1)
          /\ job' = [job EXCEPT ![w] = Idle]
          /\ UNCHANGED <<todo, table, deg, xadj, free, phase>>
Finish == phase = "fill" /\ todo = {} /\ Resting /\ phase' = "done" /\ UNCHANGED <<todo, table, deg, xadj, free, adj, job>>
Next == \/ \E w \in 1..W : Take(w) \/ Insert(w) \/ Add(w) \/ Read(w) \/ Write(w) \/ Fetch(w) \/ Put(w)
        \/ Sum \/ Finish \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Row(k) == SubSeq(adj, xadj[k] + 1, xadj[k + 1])
Right == phase = "done" =>
  /\ Len(adj) = xadj[N + 1]
  /\ \A k \in Nodes : LET want == {x[2] : x \in {e \in UNION {Edges(s) : s \in Mesh} : e[1] = k}}
                      IN ToSet(Row(k)) = want /\ Len(Row(k)) = Cardinality(want)
=============================================================================
