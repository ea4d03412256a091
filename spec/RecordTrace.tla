----------------------------- MODULE RecordTrace -----------------------------
(***************************************************************************)
(* Validates recorded operation histories of experiment records.  A record *)
(* is a map of traits (adding keeps the first value, updating replaces it),*)
(* a list of measurements per name and a sum per counter.  Stored text     *)
(* holds the traits; the fields of Ignored describe the run, not the       *)
(* experiment: they are neither loaded nor compared.                       *)
(***************************************************************************)
EXTENDS TextOps, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, rec, base, ok
tvars == <<h, l, rec, base, ok>>
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
Ignored == RangeOf(Hist[h].ev[1].ignored)
Empty == [x \in {} |-> 0]
\* list of pairs to function; the first pair of a name counts
RECURSIVE MapOf(_)
MapOf(q) == IF q = <<>> THEN Empty ELSE (q[1][1] :> q[1][2]) @@ MapOf(Tail(q))
MapListed(q, f) == {q[i] : i \in DOMAIN q} = {<<x, f[x]>> : x \in DOMAIN f} /\ Len(q) = Cardinality(DOMAIN f)
R == rec[Ev.r]
With(f, x, v) == (x :> v) @@ f
Set(r) == rec' = With(rec, Ev.r, r)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Avg(q) == IF q = <<>> THEN 0 ELSE Sum(q) \div Len(q)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ rec = Empty /\ base = Empty /\ ok = TRUE
TDecl == Ev.e = "decl" /\ UNCHANGED <<rec, base>> /\ ok' = (l = 1)
\* a fresh record only describes the run
TNew == /\ Ev.e = "new" /\ base' = MapOf(Ev.tr) /\ Set([tr |-> MapOf(Ev.tr), me |-> Empty, cn |-> Empty])
        /\ ok' = (\A i \in DOMAIN Ev.tr : Ev.tr[i][1] \in Ignored)
TAdd == Ev.e = "add" /\ Set([R EXCEPT !.tr = R.tr @@ (Ev.n :> Ev.v)]) /\ UNCHANGED base /\ ok' = TRUE
TUpd == Ev.e = "upd" /\ Set([R EXCEPT !.tr = With(R.tr, Ev.n, Ev.v)]) /\ UNCHANGED base /\ ok' = TRUE
THas == Ev.e = "has" /\ UNCHANGED <<rec, base>> /\ ok' = (Ev.x = (Ev.n \in DOMAIN R.tr))
TGet == /\ Ev.e = "get" /\ UNCHANGED <<rec, base>>
        /\ ok' = (Ev.x = (Ev.n \in DOMAIN R.tr) /\ (Ev.x => Ev.v = R.tr[Ev.n]))
TGetI == Ev.e = "geti" /\ UNCHANGED <<rec, base>> /\ ok' = (Ev.n \in DOMAIN R.tr /\ R.tr[Ev.n] = Digits(Ev.v))
TMeas == /\ Ev.e = "meas" /\ UNCHANGED base /\ ok' = TRUE
         /\ Set([R EXCEPT !.me = With(R.me, Ev.n, Append(IF Ev.n \in DOMAIN R.me THEN R.me[Ev.n] ELSE <<>>, Ev.v))])
TCnt == /\ Ev.e = "cnt" /\ UNCHANGED base /\ ok' = TRUE
        /\ Set([R EXCEPT !.cn = With(R.cn, Ev.n, Ev.v + (IF Ev.n \in DOMAIN R.cn THEN R.cn[Ev.n] ELSE 0))])
TAvg == Ev.e = "avg" /\ UNCHANGED <<rec, base>> /\ ok' = (Ev.n \in DOMAIN R.me /\ Ev.v = Avg(R.me[Ev.n]))
TCopy == Ev.e = "copy" /\ Set(rec[Ev.from]) /\ UNCHANGED base /\ ok' = TRUE
TObs == /\ Ev.e = "obs" /\ UNCHANGED <<rec, base>>
        /\ ok' = (MapListed(Ev.tr, R.tr) /\ MapListed(Ev.me, R.me) /\ MapListed(Ev.cn, R.cn))
\* what a reader of the text finds; the order of the traits is free
TStr == /\ Ev.e = "str" /\ UNCHANGED <<rec, base>>
        /\ LET p == Pairs(Ev.t, Ev.ts, Ev.is, 1)
               want == {<<x, R.tr[x]>> : x \in DOMAIN R.tr}
               avgs == IF Ev.pm THEN {<<x, Digits(Avg(R.me[x]))>> : x \in DOMAIN R.me} ELSE {}
           IN ok' = (RangeOf(p) = want \cup avgs /\ Len(p) = Cardinality(DOMAIN R.tr) + Cardinality(IF Ev.pm THEN DOMAIN R.me ELSE {}))
TLoad == /\ Ev.e = "load" /\ UNCHANGED base /\ ok' = TRUE
         /\ LET p == SelectSeq(Pairs(Ev.t, Ev.ts, Ev.is, 1), LAMBDA x : x[1] \notin Ignored)
            IN Set([tr |-> base @@ MapOf(p), me |-> Empty, cn |-> Empty])
Compared(r) == {<<x, r.tr[x]>> : x \in DOMAIN r.tr \ Ignored}
TEq == Ev.e = "eq" /\ UNCHANGED <<rec, base>> /\ ok' = (Ev.x = (Compared(R) = Compared(rec[Ev.o])))
TOther == /\ Ev.e \notin {"decl", "new", "add", "upd", "has", "get", "geti", "meas", "cnt", "avg", "copy", "obs", "str", "load", "eq"}
          /\ UNCHANGED <<rec, base>> /\ ok' = FALSE
TNext == /\ ok /\ l <= Len(Hist[h].ev) /\ l' = l + 1 /\ UNCHANGED h
         /\ (TDecl \/ TNew \/ TAdd \/ TUpd \/ THas \/ TGet \/ TGetI \/ TMeas \/ TCnt \/ TAvg \/ TCopy \/ TObs \/ TStr \/ TLoad \/ TEq \/ TOther)
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
