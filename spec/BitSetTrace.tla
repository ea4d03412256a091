---------------------------- MODULE BitSetTrace ----------------------------
(***************************************************************************)
(* Validates recorded operation histories of Bit_Set and (used             *)
(* sequentially) Concurrent_Bit_Set.  An object is its set of members and  *)
(* its window; the window is rounded to whole words of 32 bits.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok
tvars == <<h, l, st, ok>>
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
W == 32
Down(x) == (x \div W) * W
Up(x) == ((x + W - 1) \div W) * W
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
New(a, b) == [s |-> {}, lo |-> Down(a), hi |-> Up(b)]
Ascending(q) == \A i \in 1 .. Len(q) - 1 : q[i] < q[i + 1]
Reverse(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]

TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ st = [o \in {"a", "b", "f"} |-> New(0, 0)] /\ ok = TRUE
Upd(o, v) == st' = [st EXCEPT ![o] = v]

TNew == Ev.e = "new" /\ Upd(Ev.o, New(Ev.lo, Ev.hi)) /\ ok' = TRUE
TSet == /\ Ev.e = "set" /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.s = @ \cup {Ev.k}])
        /\ ok' = (Ev.was = (Ev.k \in st[Ev.o].s))
TUnset == /\ Ev.e = "unset" /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.s = @ \ {Ev.k}])
          /\ ok' = (Ev.was = (Ev.k \in st[Ev.o].s))
TBatch == Ev.e = "batch" /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.s = @ \cup {x \in Ev.from .. Ev.to : x < Ev.to}]) /\ ok' = TRUE
TFilter == Ev.e = "filter" /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.s = @ \ st[Ev.p].s]) /\ ok' = TRUE
Union(x, y) == [s |-> x.s \cup y.s, lo |-> Min(x.lo, y.lo), hi |-> Max(x.hi, y.hi)]
TMerge == Ev.e = "merge" /\ Upd(Ev.o, Union(st[Ev.o], st[Ev.p])) /\ ok' = TRUE
TMergeF == /\ Ev.e = "mergef" /\ ok' = TRUE
           /\ LET u == Union(st[Ev.o], st[Ev.p]) IN Upd(Ev.o, [u EXCEPT !.s = @ \ st[Ev.f].s])
TResize == /\ Ev.e = "resize" /\ ok' = TRUE
           /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.lo = Min(@, Down(Ev.lo)), !.hi = Max(@, Up(Ev.hi))])
TCopy == Ev.e = "copy" /\ Upd(Ev.p, st[Ev.o]) /\ ok' = TRUE
TSwap == Ev.e = "swap" /\ st' = [st EXCEPT ![Ev.p] = st[Ev.o], ![Ev.o] = st[Ev.p]] /\ ok' = TRUE
TObs == /\ Ev.e = "obs" /\ UNCHANGED st
        /\ LET x == st[Ev.o] IN
           ok' = /\ RangeOf(Ev.content) = x.s /\ Ascending(Ev.content)
                 /\ Ev.back = Reverse(Ev.content)
                 /\ RangeOf(Ev.has) = x.s /\ RangeOf(Ev.at) = x.s \ {0}
                 /\ RangeOf(Ev.parts) = x.s /\ Len(Ev.parts) = Cardinality(x.s) /\ ~Ev.lie
                 /\ Ev.ones = Cardinality(x.s) /\ Ev.zeros = x.hi - x.lo - Cardinality(x.s)
                 /\ Ev.zero = (x.s = {}) /\ Ev.one = (Cardinality(x.s) = x.hi - x.lo)
                 /\ Ev.lo = x.lo /\ Ev.hi = x.hi
TOther == /\ Ev.e \notin {"new", "set", "unset", "batch", "filter", "merge", "mergef", "resize", "copy", "swap", "obs"}
          /\ UNCHANGED st /\ ok' = FALSE
TNext == /\ l <= Len(Hist[h].ev) /\ ok
         /\ TNew \/ TSet \/ TUnset \/ TBatch \/ TFilter \/ TMerge \/ TMergeF \/ TResize \/ TCopy \/ TSwap \/ TObs \/ TOther
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
