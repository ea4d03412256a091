------------------------------ MODULE TextOps ------------------------------
(* Operators on texts, which are sequences of character codes. *)
EXTENDS Integers, Sequences
At(t, s, i) == i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s
\* position of the first occurrence of s in t from i on; Len(t) + 1 if there is none
FindFrom(t, s, i) == LET P == {j \in i .. Len(t) : At(t, s, j)}
                     IN IF P = {} THEN Len(t) + 1 ELSE CHOOSE j \in P : \A k \in P : j <= k
\* the fields between separators
RECURSIVE Fields(_, _, _)
Fields(t, s, i) == LET j == FindFrom(t, s, i)
                   IN IF j > Len(t) THEN <<SubSeq(t, i, Len(t))>> ELSE <<SubSeq(t, i, j - 1)>> \o Fields(t, s, j + Len(s))
RECURSIVE Join(_, _)
Join(fs, s) == IF fs = <<>> THEN <<>> ELSE IF Len(fs) = 1 THEN fs[1] ELSE fs[1] \o s \o Join(Tail(fs), s)
\* name and value pairs of a stored record
RECURSIVE Pairs(_, _, _, _)
Pairs(t, ts, is, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET a == FindFrom(t, is, i)
           b == FindFrom(t, ts, a + Len(is))
       IN <<<<SubSeq(t, i, a - 1), SubSeq(t, a + Len(is), b - 1)>>>> \o Pairs(t, ts, is, b + Len(ts))
=============================================================================
