-------------------------- MODULE BlockStoreTrace --------------------------
(***************************************************************************)
(* Validates recorded operation histories of BlockedArray2, dSimplices and *)
(* the chunked BlockedArray.  A store is its set of blocks and a function  *)
(* from the ids that hold an entry to the entry.  KIND says whether every  *)
(* slot of a block holds an entry from the start ("all") or only those     *)
(* written and not filtered out since ("used").                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
Kind == IOEnv.KIND
VARIABLES h, l, st, ok
tvars == <<h, l, st, ok>>
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
Span(lo, hi) == {i \in lo .. hi : i < hi}
Fresh(lo, hi) == IF Kind = "all" THEN [i \in Span(lo, hi) |-> 0] ELSE [i \in {} |-> 0]
New(lo, hi) == [blk |-> {<<lo, hi>>}, ent |-> Fresh(lo, hi), hull |-> <<>>]
Ids(s) == UNION {Span(b[1], b[2]) : b \in s.blk}
RECURSIVE SumSize(_)
SumSize(bs) == IF bs = {} THEN 0 ELSE LET b == CHOOSE x \in bs : TRUE IN b[2] - b[1] + SumSize(bs \ {b})
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* entries in ascending id order
Listing(e) == LET n == Cardinality(DOMAIN e)
                  idx == [i \in 1 .. n |-> CHOOSE x \in DOMAIN e : Cardinality({y \in DOMAIN e : y < x}) = i - 1]
              IN  [i \in 1 .. n |-> <<idx[i], e[idx[i]]>>]
Reverse(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]
\* an untouched slot of a plain store does not know its id: it is listed as <<0, 0>>
Shown(q) == IF Kind = "all" THEN [i \in DOMAIN q |-> IF q[i][2] = 0 THEN <<0, 0>> ELSE q[i]] ELSE q
BagOf(q) == [x \in RangeOf(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]

None == [blk |-> {}, ent |-> [i \in {} |-> 0], hull |-> <<>>]
TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ st = [o \in {"a", "b"} |-> None] /\ ok = TRUE
Upd(o, v) == st' = [st EXCEPT ![o] = v]

TNew == Ev.e = "new" /\ Upd(Ev.o, New(Ev.lo, Ev.hi)) /\ ok' = TRUE
TAdd == /\ Ev.e = "add" /\ ok' = TRUE
        /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.blk = @ \cup {<<Ev.lo, Ev.hi>>}, !.ent = Fresh(Ev.lo, Ev.hi) @@ @])
TPut == Ev.e = "put" /\ ok' = TRUE /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.ent = (Ev.id :> Ev.v) @@ @])
TMerge == /\ Ev.e = "merge" /\ ok' = TRUE
          /\ LET x == st[Ev.o]  y == st[Ev.p] IN
             st' = [st EXCEPT ![Ev.o] = [blk |-> x.blk \cup y.blk, ent |-> x.ent @@ y.ent,
                                         hull |-> IF Ev.hull THEN x.hull \o y.hull ELSE x.hull],
                              ![Ev.p] = None]
TSwap == Ev.e = "swap" /\ ok' = TRUE /\ st' = [st EXCEPT ![Ev.o] = st[Ev.p], ![Ev.p] = st[Ev.o]]
TSame == Ev.e = "same" /\ ok' = TRUE /\ UNCHANGED st
TFilter == /\ Ev.e = "filter" /\ ok' = TRUE
           /\ LET f == RangeOf(Ev.f)  x == st[Ev.o] IN
              Upd(Ev.o, [x EXCEPT !.ent = [i \in DOMAIN x.ent \ f |-> x.ent[i]],
                                  !.hull = SelectSeq(@, LAMBDA i : i \notin f)])
THull == Ev.e = "hull" /\ ok' = TRUE /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.hull = Append(@, Ev.id)])
TBump == /\ Ev.e = "bump" /\ ok' = TRUE
         /\ Upd(Ev.o, [st[Ev.o] EXCEPT !.ent = [i \in DOMAIN @ |-> IF @[i] = 0 THEN 0 ELSE @[i] + 1]])
TObs == /\ Ev.e = "obs" /\ UNCHANGED st
        /\ LET x == st[Ev.o]  lst == Listing(x.ent)  shown == Shown(lst) IN
           ok' = /\ Ev.fwd = shown /\ Ev.mut = shown /\ Ev.back = Reverse(shown)
                 /\ RangeOf(Ev.has) = DOMAIN x.ent /\ Len(Ev.has) = Cardinality(DOMAIN x.ent)
                 /\ RangeOf(Ev.inr) = Ids(x)
                 /\ RangeOf(Ev.got) = RangeOf(lst)
                 /\ BagOf(Ev.parts) = BagOf(shown) /\ ~Ev.lie
                 /\ Ev.lo = MinOf({b[1] : b \in x.blk}) /\ Ev.hi = MaxOf({b[2] : b \in x.blk})
                 /\ Ev.size = SumSize(x.blk)
                 /\ (Ev.hull => Ev.ch = x.hull)
\* chunked array: entries under ids below a capacity rounded up to whole chunks
CNew == /\ Ev.e = "cnew" /\ ok' = TRUE
        /\ Upd("a", [blk |-> {<<Ev.bs, ((Ev.cap + Ev.bs - 1) \div Ev.bs) * Ev.bs>>}, ent |-> [i \in {} |-> 0], hull |-> <<>>])
CTop == (CHOOSE b \in st["a"].blk : TRUE)[2]
CBs == (CHOOSE b \in st["a"].blk : TRUE)[1]
CRes == /\ Ev.e = "cres" /\ ok' = TRUE
        /\ LET t == ((Ev.cap + CBs - 1) \div CBs) * CBs IN
           Upd("a", [st["a"] EXCEPT !.blk = {<<CBs, IF t > CTop THEN t ELSE CTop>>}])
CPut == Ev.e = "cput" /\ ok' = (Ev.id < CTop) /\ Upd("a", [st["a"] EXCEPT !.ent = (Ev.id :> Ev.v) @@ @])
CAt == /\ Ev.e = "cat" /\ UNCHANGED st
       /\ ok' = IF Ev.id >= CTop THEN Ev.out
                ELSE ~Ev.out /\ Ev.v = IF Ev.id \in DOMAIN st["a"].ent THEN st["a"].ent[Ev.id] ELSE 0
TOther == /\ Ev.e \notin {"new", "add", "put", "merge", "swap", "same", "filter", "hull", "bump", "obs", "cnew", "cres", "cput", "cat"}
          /\ UNCHANGED st /\ ok' = FALSE
TNext == /\ l <= Len(Hist[h].ev) /\ ok
         /\ TNew \/ TAdd \/ TPut \/ TMerge \/ TSwap \/ TSame \/ TFilter \/ THull \/ TBump \/ TObs
            \/ CNew \/ CRes \/ CPut \/ CAt \/ TOther
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
