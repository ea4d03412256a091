---------------------------- MODULE FloatGeomTest ----------------------------
(* The operators of FloatGeom (as TLC evaluates them) against ExactGeom on all small simplices over numbers
   with different exponents. *)
EXTENDS FloatGeom
CONSTANTS Dim, Exps
Mant == {-1, 0, 2}
Num == {<<a, b, e>> : a \in {0}, b \in Mant, e \in Exps}
Pt == [1..Dim -> Num]
VARIABLES s, q
Init == s \in [1..(Dim + 1) -> Pt] /\ q \in Pt
Next == UNCHANGED <<s, q>>
\* the same points in units of the smallest of all exponents, by the definition of the numbers
I(p) == [k \in 1..Dim |-> p[k][2] * (IF p[k][3] = 0 THEN 1 ELSE IF p[k][3] = 1 THEN 2 ELSE 4)]
SI == [i \in 1..(Dim + 1) |-> I(s[i])]
Inv == /\ OrientF(s) = Orient(SI)
       /\ Orient(SI) # 0 => LiftedF(s, q) * Orient(SI) = InSphere(SI, I(q))
=============================================================================
