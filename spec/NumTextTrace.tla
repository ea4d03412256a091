---------------------------- MODULE NumTextTrace ----------------------------
(* Validates what the code recognised as numbers and how it split texts. *)
EXTENDS TextOps, TLC, Json, IOUtils
N == INSTANCE NumText WITH Alpha <- {}, MaxLen <- 0, text <- <<>>, q <- "start"
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
Ev == Hist[h].ev[l]
TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ ok = TRUE
\* v: list of <<text, is_int, is_float>> with 0 and 1 for the answers
TNum == /\ Ev.e = "num"
        /\ ok' = (\A i \in DOMAIN Ev.v : LET x == Ev.v[i]
                                             s == N!Run(x[1])
                                         IN (x[2] = 1) = N!IntState(s) /\ (x[3] = 1) = N!DecState(s))
TSplit == /\ Ev.e = "split"
          /\ LET fs == Fields(Ev.t, <<Ev.c>>, 1)
             IN ok' = (Ev.f = IF Ev.keep THEN fs ELSE SelectSeq(fs, LAMBDA x : x # <<>>))
TOther == Ev.e \notin {"num", "split"} /\ ok' = FALSE
TNext == ok /\ l <= Len(Hist[h].ev) /\ l' = l + 1 /\ UNCHANGED h /\ (TNum \/ TSplit \/ TOther)
TSpec == TInit /\ [][TNext]_<<h, l, ok>>
Accepted == ok
=============================================================================
