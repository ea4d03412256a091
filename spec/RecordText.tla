----------------------------- MODULE RecordText -----------------------------
(***************************************************************************)
(* Storing an experiment record's traits as text and loading them again.   *)
(* Texts are sequences of characters.  Store writes name, inner separator, *)
(* value for each trait, joined by the trait separator.  Load is the       *)
(* parser of the code, one action per trait.  For every record whose names *)
(* and values cannot be mistaken for separators, loading gives the record. *)
(***************************************************************************)
EXTENDS TextOps, FiniteSets
CONSTANTS Alpha, MaxLen, OldParser
TSep == <<32, 32>>     \* two blanks
ISep == <<58, 32>>     \* colon, blank
VARIABLES rec, text, pos, got, pc
vars == <<rec, text, pos, got, pc>>

Texts == UNION {[1 .. n -> Alpha] : n \in 0 .. MaxLen}
\* a name or value that cannot be mistaken for a separator
CleanName(x) == /\ FindFrom(x \o ISep, ISep, 1) = Len(x) + 1
                /\ FindFrom(TSep \o x \o ISep, TSep, 2) > Len(x) + Len(TSep)
CleanValue(x) == FindFrom(x \o TSep, TSep, 1) = Len(x) + 1

\* a record is a sequence of traits with different names
Records == {<<<<a, v>>, <<b, w>>>> : a \in {x \in Texts : CleanName(x)}, v \in {x \in Texts : CleanValue(x)},
                                      b \in {x \in Texts : CleanName(x)}, w \in {x \in Texts : CleanValue(x)}}
Piece(p) == p[1] \o ISep \o p[2]
Store(r) == Piece(r[1]) \o TSep \o Piece(r[2])

Init == /\ rec \in {r \in Records : r[1][1] # r[2][1]}
        /\ text = Store(rec) /\ pos = 1 /\ got = <<>> /\ pc = "load"

Load == /\ pc = "load" /\ pos <= Len(text) /\ Len(got) < 4
        /\ LET i == FindFrom(text, ISep, pos)
               t == FindFrom(text, TSep, IF OldParser THEN pos ELSE i + Len(ISep))
               stop == IF t < i + Len(ISep) THEN Len(text) + 1 ELSE t     \* the old parser: length wraps around
           IN /\ got' = Append(got, <<SubSeq(text, pos, i - 1), SubSeq(text, i + Len(ISep), stop - 1)>>)
              /\ pos' = t + Len(TSep)
        /\ UNCHANGED <<rec, text, pc>>
Done == /\ pc = "load" /\ (pos > Len(text) \/ Len(got) = 4) /\ pc' = "done" /\ UNCHANGED <<rec, text, pos, got>>
Next == Load \/ Done
Spec == Init /\ [][Next]_vars
\* the specification's own reading of a text agrees
OwnReading == pc = "done" => LET p == Pairs(text, TSep, ISep, 1) IN {p[i] : i \in DOMAIN p} = {rec[1], rec[2]} /\ Len(p) = 2
RoundTrip == pc = "done" => {got[i] : i \in DOMAIN got} = {rec[1], rec[2]}
=============================================================================
