--------------------------- MODULE ConcSetTrace ---------------------------
(***************************************************************************)
(* Validates recorded call/return histories of the growing hash set        *)
(* against ConcSet.  `cfgs` is the set of ALL configurations of ConcSet    *)
(* that explain the history read so far (subset construction: every        *)
(* possible choice of linearization points).  The history is rejected as   *)
(* soon as no explanation remains.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, cfgs, base, ok
tvars == <<h, l, cfgs, base, ok>>

Thread == 0 .. 3
C == INSTANCE ConcSet WITH Key <- {}, MaxCalls <- 0, cfg <- cfgs, calls <- l, wins <- l

Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}

\* all configurations reachable by letting pending operations take effect
RECURSIVE Close(_)
Close(S) ==
    LET N == S \cup UNION {{C!LinCfg(c, t) : t \in {u \in Thread : C!CanLin(c, u)}} : c \in S}
    IN  IF N = S THEN S ELSE Close(N)

Start == {[set |-> {}, th |-> [t \in Thread |-> C!Idle]]}

TInit == /\ h \in 1 .. Len(Hist) /\ l = 1 /\ cfgs = Start /\ base = {} /\ ok = TRUE

TCall == /\ Ev.e = "call"
         /\ cfgs' = Close({C!CallCfg(c, Ev.t, Ev.op, Ev.k) : c \in {d \in cfgs : C!CanCall(d, Ev.t)}})
         /\ ok' = (cfgs' # {}) /\ UNCHANGED base
TRet ==  /\ Ev.e = "ret"
         /\ cfgs' = {C!RetCfg(c, Ev.t) : c \in {d \in cfgs : C!CanRet(d, Ev.t, Ev.r)}}
         /\ ok' = (cfgs' # {}) /\ UNCHANGED base
\* contents put in sequentially before the concurrent part
TBase == /\ Ev.e = "init" /\ base' = RangeOf(Ev.keys)
         /\ cfgs' = {[c EXCEPT !.set = RangeOf(Ev.keys)] : c \in cfgs}
         /\ ok' = TRUE
\* quiescent: iteration, lookups, size
TFinal == /\ Ev.e = "final"
          /\ UNCHANGED <<base>>
          /\ cfgs' = {c \in cfgs :
                 /\ RangeOf(Ev.content) = c.set /\ Len(Ev.content) = Cardinality(c.set)
                 /\ RangeOf(Ev.found) = c.set /\ Len(Ev.found) = Len(Ev.content)
                 /\ RangeOf(Ev.cfound) = c.set
                 /\ Ev.size = Cardinality(c.set) /\ Ev.range = Cardinality(c.set)
                 /\ Ev.empty = (c.set = {}) }
          /\ ok' = (cfgs' # {})
\* an event the specification has no action for (crash, hang, exception, torn read)
TOther == /\ Ev.e \notin {"call", "ret", "init", "final"}
          /\ ok' = FALSE /\ UNCHANGED <<cfgs, base>>

TNext == /\ l <= Len(Hist[h].ev) /\ ok
         /\ TCall \/ TRet \/ TBase \/ TFinal \/ TOther
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
