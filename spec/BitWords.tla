------------------------------ MODULE BitWords ------------------------------
(***************************************************************************)
(* The bit set's algorithm: an array of words of W bits covering a window  *)
(* [W*lo, W*hi) and a counter of the set bits, against the set of small    *)
(* integers `model`.  Batch setting works with a mask for the first and    *)
(* the last word, merging, filtering and resizing change the window.       *)
(* CountFilter = FALSE is the former filter (a control): it counted only   *)
(* the words inside the filter's window.                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS W, MaxBlock, MaxOps, CountFilter
VARIABLES lo, hi, words, ones, model, ops
vars == <<lo, hi, words, ones, model, ops>>

Bits == 0 .. W - 1
Windows == {w \in (0 .. MaxBlock) \X (0 .. MaxBlock) : w[1] < w[2]}
Contents(l, ws) == UNION {{W * (l + b) + i : i \in ws[b]} : b \in DOMAIN ws}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Pop(ws, D) == Cardinality({<<b, i>> \in D \X Bits : i \in ws[b]})

Init == \E w \in Windows : /\ lo = w[1] /\ hi = w[2] /\ words = [b \in 0 .. w[2] - w[1] - 1 |-> {}]
                           /\ ones = 0 /\ model = {} /\ ops = 0
Step == ops < MaxOps /\ ops' = ops + 1
Range == W * lo .. W * hi - 1
TestAndSet(i) == /\ Step /\ i \in Range
                 /\ LET b == (i - W * lo) \div W IN
                    /\ words' = [words EXCEPT ![b] = @ \cup {i % W}]
                    /\ ones' = ones + (IF (i % W) \in words[b] THEN 0 ELSE 1)
                 /\ model' = model \cup {i} /\ UNCHANGED <<lo, hi>>
TestAndUnset(i) == /\ Step /\ i \in Range
                   /\ LET b == (i - W * lo) \div W IN
                      /\ words' = [words EXCEPT ![b] = @ \ {i % W}]
                      /\ ones' = ones - (IF (i % W) \in words[b] THEN 1 ELSE 0)
                   /\ model' = model \ {i} /\ UNCHANGED <<lo, hi>>
\* [from, to)
Batch(from, to) ==
    /\ Step /\ from \in Range /\ to \in from + 1 .. W * hi
    /\ LET fb == (from - W * lo) \div W
           tb == (to - 1 - W * lo) \div W
           Mask(b) == {i \in Bits : (b = fb => i >= from % W) /\ (b = tb => i <= (to - 1) % W)}
           nw == [b \in DOMAIN words |-> IF b \in fb .. tb THEN words[b] \cup Mask(b) ELSE words[b]]
       IN  words' = nw /\ ones' = ones + Pop([b \in DOMAIN words |-> nw[b] \ words[b]], DOMAIN words)
    /\ model' = model \cup from .. to - 1 /\ UNCHANGED <<lo, hi>>
\* another bit set: window ol, oh, content given by the words ow
Filter(ol, oh, ow) ==
    /\ Step
    /\ LET In(b) == ol <= lo + b /\ lo + b < oh
           nw == [b \in DOMAIN words |-> IF In(b) THEN words[b] \ ow[lo + b - ol] ELSE words[b]]
       IN  /\ words' = nw
           /\ ones' = Pop(nw, IF CountFilter THEN DOMAIN nw ELSE {b \in DOMAIN nw : In(b)})
    /\ model' = model \ Contents(ol, ow) /\ UNCHANGED <<lo, hi>>
Merge(ol, oh, ow) ==
    /\ Step /\ lo' = Min(lo, ol) /\ hi' = Max(hi, oh)
    /\ LET nw == [b \in 0 .. hi' - lo' - 1 |->
                    (IF lo <= lo' + b /\ lo' + b < hi THEN words[lo' + b - lo] ELSE {})
                    \cup (IF ol <= lo' + b /\ lo' + b < oh THEN ow[lo' + b - ol] ELSE {})]
       IN  words' = nw /\ ones' = Pop(nw, DOMAIN nw)
    /\ model' = model \cup Contents(ol, ow)
Resize(l, h) ==
    /\ Step /\ lo' = Min(lo, l) /\ hi' = Max(hi, h)
    /\ LET ob == lo - lo'  oe == hi - lo'
       IN  words' = [b \in 0 .. hi' - lo' - 1 |-> IF b < ob THEN {} ELSE IF b < oe THEN words[b - ob] ELSE {}]
    /\ UNCHANGED <<ones, model>>
Next == \/ \E i \in 0 .. W * MaxBlock : TestAndSet(i) \/ TestAndUnset(i)
        \/ \E f, t \in 0 .. W * MaxBlock : Batch(f, t)
        \/ \E w \in Windows : \E ow \in [0 .. w[2] - w[1] - 1 -> {{}, {0}, {W - 1}, Bits}] :
              Filter(w[1], w[2], ow) \/ Merge(w[1], w[2], ow)
        \/ \E w \in Windows : Resize(w[1], w[2])
Spec == Init /\ [][Next]_vars
Represents == Contents(lo, words) = model
Counts == ones = Cardinality(model)
=============================================================================
