--------------------------- MODULE ConcBagTrace ---------------------------
(* Validates call/return histories of the growing multimap.  Inserts always *)
(* succeed; a key is found iff some pair of it was inserted (linearizable); *)
(* at quiescence iteration and lookups yield exactly the bag of all pairs   *)
(* that were inserted.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, Bags, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, cfgs, bag, ok
tvars == <<h, l, cfgs, bag, ok>>

Thread == 0 .. 3
Idle == [st |-> "idle"]
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
\* configuration: keys present + pending operation per thread
Lin(c, t) == LET p == c.th[t] IN
    [set |-> IF p.op = "i" THEN c.set \cup {p.k} ELSE c.set,
     th |-> [c.th EXCEPT ![t] = [st |-> "done", op |-> p.op, k |-> p.k, res |-> (p.op = "i" \/ p.k \in c.set)]]]
RECURSIVE Close(_)
Close(S) == LET N == S \cup UNION {{Lin(c, t) : t \in {u \in Thread : c.th[u].st = "called"}} : c \in S}
            IN  IF N = S THEN S ELSE Close(N)
\* the bag of pairs, as a function pair -> multiplicity
SeqBag(s) == [p \in RangeOf(s) |-> Cardinality({i \in DOMAIN s : s[i] = p})]

TInit == /\ h \in 1 .. Len(Hist) /\ l = 1 /\ ok = TRUE
         /\ cfgs = {[set |-> {}, th |-> [t \in Thread |-> Idle]]} /\ bag = EmptyBag
TBase == /\ Ev.e = "init" /\ bag' = bag (+) SeqBag(Ev.pairs)
         /\ cfgs' = {[c EXCEPT !.set = {p[1] : p \in RangeOf(Ev.pairs)}] : c \in cfgs} /\ ok' = TRUE
TCall == /\ Ev.e = "call"
         /\ cfgs' = Close({[c EXCEPT !.th[Ev.t] = [st |-> "called", op |-> Ev.op, k |-> Ev.k]] :
                              c \in {d \in cfgs : d.th[Ev.t].st = "idle"}})
         /\ bag' = IF Ev.op = "i" THEN bag (+) SetToBag({<<Ev.k, Ev.v>>}) ELSE bag
         /\ ok' = (cfgs' # {})
TRet ==  /\ Ev.e = "ret"
         /\ cfgs' = {[c EXCEPT !.th[Ev.t] = Idle] :
                        c \in {d \in cfgs : d.th[Ev.t].st = "done" /\ d.th[Ev.t].res = Ev.r}}
         /\ ok' = (cfgs' # {}) /\ UNCHANGED bag
TFinal == /\ Ev.e = "final" /\ UNCHANGED <<cfgs, bag>>
          /\ LET keys == {p[1] : p \in DOMAIN bag} IN
             ok' = (/\ SeqBag(Ev.content) = bag /\ SeqBag(Ev.found) = bag
                    /\ RangeOf(Ev.has) = keys /\ Ev.size = BagCardinality(bag) /\ Ev.empty = (bag = EmptyBag))
TOther == /\ Ev.e \notin {"call", "ret", "init", "final"} /\ ok' = FALSE /\ UNCHANGED <<cfgs, bag>>
TNext == /\ l <= Len(Hist[h].ev) /\ ok
         /\ TCall \/ TRet \/ TBase \/ TFinal \/ TOther
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
