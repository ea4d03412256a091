----------------------------- MODULE RangeTrace -----------------------------
(***************************************************************************)
(* Validates what the parts of a split iteration range visit: a container  *)
(* with known contents is split, every part is iterated.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, used, left, ok
tvars == <<h, l, used, left, ok>>
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ used = {} /\ left = {} /\ ok = TRUE
TContent == Ev.e = "content" /\ used' = RangeOf(Ev.used) /\ left' = {} /\ ok' = TRUE
TSplit == Ev.e = "split" /\ left' = used /\ UNCHANGED used /\ ok' = TRUE
\* a part visits entries nobody visited yet, each once, and none if it calls itself empty
TPart == /\ Ev.e = "part" /\ UNCHANGED used
         /\ LET v == RangeOf(Ev.v) IN
            /\ left' = left \ v
            /\ ok' = (v \subseteq left /\ Cardinality(v) = Len(Ev.v) /\ (Ev.empty => v = {}))
TDone == Ev.e = "done" /\ UNCHANGED <<used, left>> /\ ok' = (left = {})
TOther == Ev.e \notin {"content", "split", "part", "done"} /\ UNCHANGED <<used, left>> /\ ok' = FALSE
TNext == /\ l <= Len(Hist[h].ev) /\ ok
         /\ TContent \/ TSplit \/ TPart \/ TDone \/ TOther
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
