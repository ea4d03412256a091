-------------------------- MODULE PointStoreTrace --------------------------
(***************************************************************************)
(* Validates recorded operation histories of the point store.  Slots of    *)
(* finite ids follow each other from the offset on; the nINF highest ids   *)
(* of the id type are artificial (written -nINF .. -1 here, the highest id *)
(* being -1).  In kind "dPoints" the first slot is reserved: it is no      *)
(* member, though it can be read.  `ent` holds what was stored last.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, kind, ninf, off, n, ent, ok
tvars == <<h, l, kind, ninf, off, n, ent, ok>>
Ev == Hist[h].ev[l]
RangeOf(s) == {s[i] : i \in DOMAIN s}
NoEnt == [i \in {} |-> 0]
TInit == h \in 1 .. Len(Hist) /\ l = 1 /\ kind = "" /\ ninf = 0 /\ off = 0 /\ n = 0 /\ ent = NoEnt /\ ok = TRUE

Artificial(i) == -ninf <= i /\ i <= -1
Slots == {i \in off .. off + n : i < off + n}
Members == {i \in Slots : kind = "dPoints" => i > off} \cup {i \in -ninf .. -1 : TRUE}
\* ids an observation asks for
Asked == 0 .. off + n + 3
AskedTop == (-ninf - 3) .. -1

TNew == /\ Ev.e = "new" /\ kind' = Ev.o /\ ninf' = Ev.ninf /\ off' = 0 /\ ent' = NoEnt
        /\ n' = IF Ev.o = "dPoints" THEN 1 ELSE 0
        /\ ok' = (Ev.ninf = IF Ev.d = 2 THEN 4 ELSE 8)
\* moving the window renames the slots: the artificial points stay
TOff == /\ Ev.e = "off" /\ off' = Ev.k /\ ent' = [i \in {x \in DOMAIN ent : x < 0} |-> ent[i]]
        /\ UNCHANGED <<kind, ninf, n>> /\ ok' = TRUE
TPut == /\ Ev.e = "put" /\ ent' = (Ev.id :> Ev.v) @@ ent /\ UNCHANGED <<kind, ninf, off, n>>
        /\ ok' = (Ev.id \in Slots \/ Artificial(Ev.id))
TApp == /\ Ev.e = "app" /\ ent' = ((off + n) :> Ev.v) @@ ent /\ n' = n + 1 /\ UNCHANGED <<kind, ninf, off>> /\ ok' = TRUE
TReserve == /\ Ev.e = "reserve" /\ n' = (IF Ev.k - off > n THEN Ev.k - off ELSE n)
            /\ UNCHANGED <<kind, ninf, off, ent>> /\ ok' = TRUE
TResize == Ev.e = "resize" /\ n' = Ev.k /\ UNCHANGED <<kind, ninf, off, ent>> /\ ok' = TRUE
TInsert == /\ Ev.e = "insert" /\ UNCHANGED <<kind, ninf, off>> /\ ok' = TRUE
           /\ LET m == Len(Ev.vs)
                  moved(i) == IF i >= 0 /\ i >= Ev.at THEN i + m ELSE i
                  new == {i \in Ev.at .. Ev.at + m : i < Ev.at + m}
                  dom == {moved(i) : i \in DOMAIN ent} \cup new
              IN /\ n' = n + m
                 /\ ent' = [i \in dom |-> IF i \in new THEN Ev.vs[i - Ev.at + 1]
                                          ELSE IF i >= 0 /\ i >= Ev.at + m THEN ent[i - m] ELSE ent[i]]
TSame == Ev.e = "same" /\ UNCHANGED <<kind, ninf, off, n, ent>> /\ ok' = TRUE
TEq == /\ Ev.e = "eq" /\ UNCHANGED <<kind, ninf, off, n, ent>>
       /\ ok' = (Ev.r = (RangeOf(Ev.ids) = Members) /\ Ev.ne = ~Ev.r)
TMake == /\ Ev.e = "make" /\ UNCHANGED <<kind, ninf, off, n, ent>>
         /\ ok' = (RangeOf(Ev.v) = Members /\ Len(Ev.v) = Cardinality(Members))

\* flat list <<id, value, id, value, ...>>
PairsOf(q) == [i \in 1 .. Len(q) \div 2 |-> <<q[2 * i - 1], q[2 * i]>>]
Listing(S) == LET m == Cardinality(S) IN [i \in 1 .. m |-> LET x == CHOOSE y \in S : Cardinality({z \in S : z < y}) = i - 1 IN <<x, ent[x]>>]
TObs == /\ Ev.e = "obs" /\ UNCHANGED <<kind, ninf, off, n, ent>>
        /\ LET finite == {i \in DOMAIN ent : i >= 0} IN
           ok' = /\ Ev.n = n /\ Ev.size = n + ninf /\ Ev.off = off /\ Ev.slots = n
                 /\ RangeOf(Ev.has) = {i \in Asked \cup AskedTop : i \in Members}
                 /\ RangeOf(Ev.fin) = {i \in Asked \cup AskedTop : ~Artificial(i)}
                 \* artificial ids are numbered 0 .. nINF-1 in id order
                 /\ RangeOf(PairsOf(Ev.art)) = {<<i, i + ninf>> : i \in -ninf .. -1}
                 /\ Ev.rng = [i \in 1 .. (IF kind = "dPoints" THEN n - 1 ELSE n) |-> off + i - (IF kind = "dPoints" THEN 0 ELSE 1)]
                 /\ PairsOf(Ev.got) = Listing(DOMAIN ent)
                 /\ Ev.filt = [i \in 1 .. Cardinality(DOMAIN ent) |-> Listing(DOMAIN ent)[i][2]]
                 /\ PairsOf(Ev.it) = Listing(finite) /\ PairsOf(Ev.mit) = Listing(finite)
TOther == /\ Ev.e \notin {"new", "off", "put", "app", "reserve", "resize", "insert", "same", "eq", "make", "obs"}
          /\ UNCHANGED <<kind, ninf, off, n, ent>> /\ ok' = FALSE
TNext == /\ l <= Len(Hist[h].ev) /\ ok
         /\ TNew \/ TOff \/ TPut \/ TApp \/ TReserve \/ TResize \/ TInsert \/ TSame \/ TEq \/ TMake \/ TObs \/ TOther
         /\ l' = l + 1 /\ h' = h
TSpec == TInit /\ [][TNext]_tvars
Accepted == ok
=============================================================================
