--------------------------- MODULE RecordConcTrace ---------------------------
(* Validates what a record holds after threads added to it: the first event  *)
(* lists the additions <<thread, kind, name, value>>, the others what the    *)
(* record holds at quiescence.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, adds, ok
tvars == <<h, l, adds, ok>>
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Names(k) == {adds[i][3] : i \in {j \in DOMAIN adds : adds[j][2] = k}}
Vals(k, n) == LET q == SelectSeq(adds, LAMBDA x : x[2] = k /\ x[3] = n) IN [i \in DOMAIN q |-> q[i][4]]
Count(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
SameBag(p, q) == Len(p) = Len(q) /\ \A v \in RangeOf(p) : Count(p, v) = Count(q, v)
\* the values one thread added keep their order
ByThread(t, n) == LET q == SelectSeq(adds, LAMBDA x : x[1] = t /\ x[2] = "meas" /\ x[3] = n) IN [i \in DOMAIN q |-> q[i][4]]
InOrder(list, q) == \A i, j \in DOMAIN q : i < j => \E a, b \in DOMAIN list : a < b /\ list[a] = q[i] /\ list[b] = q[j]

TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ adds = <<>> /\ ok = TRUE
TProg == Ev.e = "prog" /\ adds' = Ev.adds /\ ok' = (l = 1)
TCounters == /\ Ev.e = "counters" /\ UNCHANGED adds
             /\ ok' = ({Ev.v[i] : i \in DOMAIN Ev.v} = {<<n, Sum(Vals("cnt", n))>> : n \in Names("cnt")} /\ Len(Ev.v) = Cardinality(Names("cnt")))
TMeas == /\ Ev.e = "meas" /\ UNCHANGED adds
         /\ ok' = /\ {Ev.v[i][1] : i \in DOMAIN Ev.v} = Names("meas") /\ Len(Ev.v) = Cardinality(Names("meas"))
                  /\ \A i \in DOMAIN Ev.v : /\ SameBag(Ev.v[i][2], Vals("meas", Ev.v[i][1]))
                                            /\ \A t \in {adds[k][1] : k \in DOMAIN adds} : InOrder(Ev.v[i][2], ByThread(t, Ev.v[i][1]))
TOther == Ev.e \notin {"prog", "counters", "meas"} /\ UNCHANGED adds /\ ok' = FALSE
TNext == ok /\ l <= Len(Hist[h].ev) /\ l' = l + 1 /\ UNCHANGED h /\ (TProg \/ TCounters \/ TMeas \/ TOther)
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
