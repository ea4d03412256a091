--------------------------- MODULE ConcMapTrace ---------------------------
(* Validates call/return histories of the growing hash map: presence of    *)
(* keys against ConcSet (all linearizations), values against ConcMap.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, cfgs, mon, ok
tvars == <<h, l, cfgs, mon, ok>>

Thread == 0 .. 3
C == INSTANCE ConcSet WITH Key <- {}, MaxCalls <- 0, cfg <- cfgs, calls <- l, wins <- l
M == INSTANCE ConcMap WITH Key <- {}, MaxOps <- 0, keys <- cfgs, val <- cfgs, pc <- cfgs, n <- l

Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Close(_)
Close(S) ==
    LET N == S \cup UNION {{C!LinCfg(c, t) : t \in {u \in Thread : C!CanLin(c, u)}} : c \in S}
    IN  IF N = S THEN S ELSE Close(N)

\* keys occurring in the history
KeysOf(i) == {Hist[i].ev[j].k : j \in {x \in DOMAIN Hist[i].ev : Hist[i].ev[x].e = "call"}}
             \cup UNION {{p[1] : p \in RangeOf(Hist[i].ev[j].pairs)} : j \in {x \in DOMAIN Hist[i].ev : Hist[i].ev[x].e = "init"}}

TInit == /\ h \in 1 .. Len(Hist) /\ l = 1 /\ ok = TRUE
         /\ cfgs = {[set |-> {}, th |-> [t \in Thread |-> C!Idle]]}
         /\ mon = [cand |-> [k \in KeysOf(h) |-> {}], pend |-> [t \in Thread |-> M!NoPend],
                   get |-> [t \in Thread |-> M!NoGet]]

TBase == /\ Ev.e = "init"
         /\ cfgs' = {[c EXCEPT !.set = {p[1] : p \in RangeOf(Ev.pairs)}] : c \in cfgs}
         /\ mon' = [mon EXCEPT !.cand = [k \in DOMAIN @ |->
                       LET S == {p[2] : p \in {q \in RangeOf(Ev.pairs) : q[1] = k}} IN S]]
         /\ ok' = TRUE
TCall == /\ Ev.e = "call"
         /\ cfgs' = Close({C!CallCfg(c, Ev.t, Ev.op, Ev.k) : c \in {d \in cfgs : C!CanCall(d, Ev.t)}})
         /\ mon' = IF Ev.op = "i" THEN M!MCallIns(mon, Ev.t, Ev.k, Ev.v) ELSE M!MCallGet(mon, Ev.t, Ev.k)
         /\ ok' = (cfgs' # {})
\* is thread t inside an insert?
TRet ==  /\ Ev.e = "ret"
         /\ LET ins == mon.pend[Ev.t].on
                r == IF ins THEN Ev.r ELSE Ev.v # 0 IN
            /\ cfgs' = {C!RetCfg(c, Ev.t) : c \in {d \in cfgs : C!CanRet(d, Ev.t, r)}}
            /\ mon' = IF ins THEN M!MRetIns(mon, Ev.t) ELSE M!MRetGet(mon, Ev.t)
            /\ ok' = (cfgs' # {} /\ (ins \/ M!MGetOk(mon, Ev.t, Ev.v)))
Binds(pairs, c) == /\ Len(pairs) = Cardinality(c.set)
                   /\ {p[1] : p \in RangeOf(pairs)} = c.set
                   /\ \A p \in RangeOf(pairs) : p[2] \in mon.cand[p[1]]
TFinal == /\ Ev.e = "final"
          /\ cfgs' = {c \in cfgs : /\ Binds(Ev.content, c) /\ Binds(Ev.found, c) /\ Binds(Ev.cfound, c)
                                   /\ RangeOf(Ev.content) = RangeOf(Ev.found) /\ RangeOf(Ev.cfound) = RangeOf(Ev.found)
                                   /\ Ev.size = Cardinality(c.set) /\ Ev.empty = (c.set = {})}
          /\ mon' = mon
          /\ ok' = (cfgs' # {})
TOther == /\ Ev.e \notin {"call", "ret", "init", "final"} /\ ok' = FALSE /\ UNCHANGED <<cfgs, mon>>

TNext == /\ l <= Len(Hist[h].ev) /\ ok
         /\ TCall \/ TRet \/ TBase \/ TFinal \/ TOther
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
