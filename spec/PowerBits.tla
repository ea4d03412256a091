----------------------------- MODULE PowerBits -----------------------------
(***************************************************************************)
(* Power-of-two helpers on words of W bits, step by step as the code does  *)
(* them, against their arithmetic definition, for every word.              *)
(***************************************************************************)
EXTENDS Integers, Bitwise, FiniteSets
CONSTANTS W, Guarded
M == 2 ^ W
Bits(x) == {i \in 0 .. W - 1 : (x \div 2 ^ i) % 2 = 1}
\* definitions
IsPow(x, n) == \E k \in 0 .. W : n ^ k = x
NextPow(x) == CHOOSE p \in {2 ^ k : k \in 0 .. W} : p >= x /\ \A k \in 0 .. W : 2 ^ k >= x => 2 ^ k >= p
LogOf(x, n) == CHOOSE k \in 0 .. W : n ^ k <= x /\ n ^ (k + 1) > x

VARIABLES x, v, s, y, r, n, pc
vars == <<x, v, s, y, r, n, pc>>
Init == /\ x \in 0 .. M - 1 /\ n \in 2 .. 5
        /\ v = (x - 1) % M /\ s = 1 /\ y = 0 /\ r = x /\ pc = "smear"
\* nextPow2: copy the highest bit of x - 1 into all lower ones, add one
Smear == pc = "smear" /\ s < W /\ v' = (v | shiftR(v, s)) /\ s' = 2 * s /\ UNCHANGED <<x, y, r, n, pc>>
Inc == pc = "smear" /\ s >= W /\ v' = (IF Guarded /\ x = 0 THEN 1 ELSE (v + 1) % M) /\ pc' = "log" /\ UNCHANGED <<x, s, y, r, n>>
\* logN: divide until nothing is left
Log == pc = "log" /\ r \div n > 0 /\ r' = r \div n /\ y' = y + 1 /\ UNCHANGED <<x, v, s, n, pc>>
EndLog == pc = "log" /\ r \div n = 0 /\ pc' = "pow" /\ r' = x /\ UNCHANGED <<x, v, s, y, n>>
\* isPowN: divide while it leaves no rest
Strip == pc = "pow" /\ r # 0 /\ r % n = 0 /\ r' = r \div n /\ UNCHANGED <<x, v, s, y, n, pc>>
EndPow == pc = "pow" /\ (r = 0 \/ r % n # 0) /\ pc' = "done" /\ UNCHANGED <<x, v, s, y, r, n>>
Next == Smear \/ Inc \/ Log \/ EndLog \/ Strip \/ EndPow
Spec == Init /\ [][Next]_vars

\* popcount: sums of pairs, fours, eights, gathered by a multiplication
Pop == LET a == (x - (shiftR(x, 1) & ((M - 1) \div 3))) % M
           m == ((M - 1) \div 15) * 3
           b == (a & m) + (shiftR(a, 2) & m)
           c == (b + shiftR(b, 4)) & (((M - 1) \div 255) * 15)
       IN ((c * ((M - 1) \div 255)) % M) \div (2 ^ (W - 8))
NextPowRight == pc # "smear" /\ x <= M \div 2 => v = NextPow(x)
LogRight == pc \in {"pow", "done"} /\ x > 0 => y = LogOf(x, n)
PowRight == pc = "done" => ((r = 1) <=> IsPow(x, n))
IsPow2Right == (x # 0 /\ (x & (x - 1)) = 0) <=> IsPow(x, 2)
PopRight == Pop = Cardinality(Bits(x))
=============================================================================
