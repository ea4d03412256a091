------------------------------ MODULE NumText ------------------------------
(***************************************************************************)
(* Numbers as texts, twice: as a grammar (Integer, Decimal: which texts    *)
(* there are) and as an automaton reading one character per step.  TLC     *)
(* generates every text up to MaxLen and checks that both agree.           *)
(***************************************************************************)
EXTENDS TextOps, FiniteSets
CONSTANTS Alpha, MaxLen
IsDigit(c) == 48 <= c /\ c <= 57
IsSign(c) == c = 43 \/ c = 45
IsE(c) == c = 69 \/ c = 101
\* grammar
AllDigits(t) == \A i \in DOMAIN t : IsDigit(t[i])
Unsigned(t) == IF t # <<>> /\ IsSign(t[1]) THEN Tail(t) ELSE t
Natural(t) == t # <<>> /\ AllDigits(t)
Integer(t) == Natural(Unsigned(t))
Point(t) == Natural(t) \/ \E i \in DOMAIN t : /\ t[i] = 46 /\ Len(t) > 1
                                              /\ AllDigits(SubSeq(t, 1, i - 1)) /\ AllDigits(SubSeq(t, i + 1, Len(t)))
Decimal(t) == \/ Point(Unsigned(t))
              \/ \E i \in DOMAIN t : IsE(t[i]) /\ Point(Unsigned(SubSeq(t, 1, i - 1))) /\ Integer(SubSeq(t, i + 1, Len(t)))
\* automaton
Step(q, c) ==
  CASE q = "start" /\ IsSign(c) -> "sign"
    [] q \in {"start", "sign"} /\ IsDigit(c) -> "int"
    [] q \in {"start", "sign"} /\ c = 46 -> "dot"
    [] q = "int" /\ IsDigit(c) -> "int"
    [] q = "int" /\ c = 46 -> "point"
    [] q = "dot" /\ IsDigit(c) -> "point"
    [] q = "point" /\ IsDigit(c) -> "point"
    [] q \in {"int", "point"} /\ IsE(c) -> "e"
    [] q = "e" /\ IsSign(c) -> "esign"
    [] q \in {"e", "esign"} /\ IsDigit(c) -> "exp"
    [] q = "exp" /\ IsDigit(c) -> "exp"
    [] OTHER -> "no"
Start == "start"
IntState(q) == q = "int"
DecState(q) == q \in {"int", "point", "exp"}
RECURSIVE RunFrom(_, _, _)
RunFrom(q, t, i) == IF i > Len(t) THEN q ELSE RunFrom(Step(q, t[i]), t, i + 1)
Run(t) == RunFrom(Start, t, 1)

VARIABLES text, q
Init == text = <<>> /\ q = Start
Read == Len(text) < MaxLen /\ \E c \in Alpha : text' = Append(text, c) /\ q' = Step(q, c)
Spec == Init /\ [][Read]_<<text, q>>
Agree == /\ IntState(q) = Integer(text) /\ DecState(q) = Decimal(text)
         /\ Integer(text) => Decimal(text)
\* splitting: the fields between the separators rejoin to the text and hold no separator
SplitAgree == LET fs == Fields(text, <<46>>, 1)
              IN Join(fs, <<46>>) = text /\ \A i \in DOMAIN fs : 46 \notin {fs[i][j] : j \in DOMAIN fs[i]}
=============================================================================
