----------------------------- MODULE PowerTrace -----------------------------
(* Validates answers of the power-of-two helpers.  A word is the ascending  *)
(* list of its bits.                                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
Ev == Hist[h].ev[l]
TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ ok = TRUE
\* v: list of <<word, nextPow2, isPow2, log2, popcount>>
Word(x, w) == LET b == x[1]
                  n == Len(b)
              IN /\ x[2] = (IF n = 0 THEN <<0>> ELSE IF n = 1 THEN b ELSE IF b[n] + 1 < w THEN <<b[n] + 1>> ELSE x[2])
                 /\ (x[3] = 1) = (n = 1) /\ x[3] \in {0, 1}
                 /\ (n > 0 => x[4] = b[n])
                 /\ x[5] = n
TWord == Ev.e = "word" /\ ok' = (\A i \in DOMAIN Ev.v : Word(Ev.v[i], Ev.w))
\* v: list of <<x, n, isPowN, logN>>
RECURSIVE Log(_, _)
Log(x, n) == IF x \div n = 0 THEN 0 ELSE 1 + Log(x \div n, n)
RECURSIVE Pow(_, _)
Pow(x, n) == x = 1 \/ (x > 0 /\ x % n = 0 /\ Pow(x \div n, n))
TBase == Ev.e = "base" /\ ok' = (\A i \in DOMAIN Ev.v : LET x == Ev.v[i] IN (x[3] = 1) = Pow(x[1], x[2]) /\ (x[1] > 0 => x[4] = Log(x[1], x[2])))
TOther == Ev.e \notin {"word", "base"} /\ ok' = FALSE
TNext == ok /\ l <= Len(Hist[h].ev) /\ l' = l + 1 /\ UNCHANGED h /\ (TWord \/ TBase \/ TOther)
TSpec == TInit /\ [][TNext]_<<h, l, ok>>
Accepted == ok
=============================================================================
