------------------------------- MODULE LogTrace -------------------------------
(***************************************************************************)
(* Validates recorded histories of the logger.  Levels: 0 silent, 1 to 3   *)
(* increasing verbosity; negative levels log live with the verbosity of    *)
(* their absolute value.  Messages are kept as <<level, text>>, the text   *)
(* starting with the indentation of the thread that logged it.             *)
(***************************************************************************)
EXTENDS TextOps, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, level, kept, live, ind, prog, ok
tvars == <<h, l, level, kept, live, ind, prog, ok>>
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Tabs(n) == [i \in 1 .. n |-> 9]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ level = 1 /\ kept = <<>> /\ live = <<>> /\ ind = [t \in 0 .. 9 |-> 0] /\ prog = <<>> /\ ok = TRUE
TLevel == Ev.e = "level" /\ level' = Ev.k /\ UNCHANGED <<kept, live, ind, prog>> /\ ok' = TRUE
\* incIndent / decIndent; the macros do nothing when silent
TIndent == /\ Ev.e = "indent" /\ ind' = [ind EXCEPT ![Ev.t] = IF Ev.macro /\ level = 0 THEN @ ELSE @ + Ev.d]
           /\ UNCHANGED <<level, kept, live, prog>> /\ ok' = TRUE
\* a message through the macros: logged iff its level is within the verbosity; raw ones are always kept
TLog == /\ Ev.e = "log" /\ UNCHANGED <<level, ind, prog>> /\ ok' = TRUE
        /\ LET m == Tabs(ind[Ev.t]) \o Ev.x
               on == Ev.raw \/ Abs(level) >= Ev.k
           IN /\ kept' = IF on /\ level >= 0 THEN Append(kept, <<Ev.k, m>>) ELSE kept
              /\ live' = IF on /\ level < 0 THEN live \o m ELSE live
TPrint == /\ Ev.e = "print" /\ UNCHANGED <<level, kept, live, ind, prog>>
          /\ LET q == SelectSeq(kept, LAMBDA m : m[1] <= Ev.k)
             IN ok' = (Ev.x = IF Ev.k = 0 THEN <<>> ELSE Cat([i \in DOMAIN q |-> q[i][2]]))
TLive == Ev.e = "live" /\ UNCHANGED <<level, kept, live, ind, prog>> /\ ok' = (Ev.x = live)
\* concurrent part: prog lists <<thread, level, text with indentation>> in the order of each thread
TProg == Ev.e = "prog" /\ prog' = Ev.v /\ level' = Ev.k /\ UNCHANGED <<kept, live, ind>> /\ ok' = (l = 1)
Count(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
TLines == /\ Ev.e = "lines" /\ UNCHANGED <<level, kept, live, ind, prog>>
          /\ LET due == SelectSeq(prog, LAMBDA m : m[2] <= Ev.k /\ m[2] <= level)
                 ofThread(t) == SelectSeq(due, LAMBDA m : m[1] = t)
             IN ok' = /\ Len(Ev.v) = Len(due)
                      /\ RangeOf(Ev.v) = {due[i][3] : i \in DOMAIN due}     \* the texts are all different
                      /\ \A t \in {due[i][1] : i \in DOMAIN due} :
                            LET q == ofThread(t) IN SelectSeq(Ev.v, LAMBDA x : \E i \in DOMAIN q : q[i][3] = x) = [i \in DOMAIN q |-> q[i][3]]
TOther == /\ Ev.e \notin {"level", "indent", "log", "print", "live", "prog", "lines"} /\ UNCHANGED <<level, kept, live, ind, prog>> /\ ok' = FALSE
TNext == /\ ok /\ l <= Len(Hist[h].ev) /\ l' = l + 1 /\ UNCHANGED h
         /\ (TLevel \/ TIndent \/ TLog \/ TPrint \/ TLive \/ TProg \/ TLines \/ TOther)
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
