----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Validates recorded operation histories of the sequential hash tables    *)
(* and of the bulk operations of the concurrent ones against Store.        *)
(* `st` maps each live object of the history to the store it has to be.    *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
Kind == IOEnv.KIND
VARIABLES h, l, st, ok
tvars == <<h, l, st, ok>>
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
Has(f) == f \in DOMAIN Ev

TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ st = [o \in {"a", "b", "c", "d"} |-> Empty] /\ ok = TRUE

TNew == Ev.e = "new" /\ st' = [st EXCEPT ![Ev.o] = Empty] /\ ok' = TRUE
TIns == /\ Ev.e = "ins"
        /\ LET x == Insert(Kind, st[Ev.o], Ev.k, IF Has("v") THEN Ev.v ELSE 0)
           IN  st' = [st EXCEPT ![Ev.o] = x.s] /\ ok' = (Ev.r = x.r)
TSame == Ev.e = "same" /\ UNCHANGED st /\ ok' = TRUE
TFilter == /\ Ev.e = "filter"
           /\ st' = [st EXCEPT ![Ev.o] = Select(@, RangeOf(Ev.f), IF Has("cmp") THEN Ev.cmp ELSE FALSE)]
           /\ ok' = TRUE
TMerge == /\ Ev.e = "merge"
          /\ st' = [st EXCEPT ![Ev.o] = Merge(Kind, @, st[Ev.p]), ![Ev.p] = Empty]
          /\ ok' = TRUE
TMergeF == /\ Ev.e = "mergef"
           /\ LET f == RangeOf(Ev.f)
                  c == IF Has("cmp") THEN Ev.cmp ELSE FALSE
              IN  st' = [st EXCEPT ![Ev.o] = Merge(Kind, Select(@, f, c), Select(st[Ev.p], f, c)), ![Ev.p] = Empty]
           /\ ok' = TRUE
TCopy == Ev.e = "copy" /\ st' = [st EXCEPT ![Ev.p] = st[Ev.o]] /\ ok' = TRUE
TSwap == Ev.e = "swap" /\ st' = [st EXCEPT ![Ev.p] = st[Ev.o], ![Ev.o] = st[Ev.p]] /\ ok' = TRUE
TEq == Ev.e = "eq" /\ UNCHANGED st /\ ok' = (Ev.r = (st[Ev.o] = st[Ev.p]))

\* observation: iteration, lookup of every key of the universe, sizes
Entries(q) == IF Kind = "set" THEN [i \in DOMAIN q |-> <<q[i], 0>>] ELSE q
TObs == /\ Ev.e = "obs"
        /\ UNCHANGED st
        /\ LET s == st[Ev.o] IN
           ok' = /\ BagOf(Entries(Ev.content)) = s
                 /\ RangeOf(Ev.has) = Keys(s)
                 /\ (Has("cnt") => RangeOf(Ev.cnt) = Keys(s))
                 /\ (Has("got") => BagOf(Ev.got) = s)
                 \* a range over it, split in some way: the parts visit every entry once
                 /\ (Has("parts") => BagOf(Entries(Ev.parts)) = s /\ ~Ev.lie)
                 /\ Ev.size = Size(s)
                 /\ Ev.empty = (s = Empty)

TOther == /\ Ev.e \notin {"new", "ins", "same", "filter", "merge", "mergef", "copy", "swap", "eq", "obs"}
          /\ UNCHANGED st /\ ok' = FALSE

TNext == /\ l <= Len(Hist[h].ev) /\ ok
         /\ TNew \/ TIns \/ TSame \/ TFilter \/ TMerge \/ TMergeF \/ TCopy \/ TSwap \/ TEq \/ TObs \/ TOther
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
