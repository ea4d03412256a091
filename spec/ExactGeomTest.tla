--------------------------- MODULE ExactGeomTest ---------------------------
(* The definitions of ExactGeom against independent characterisations, for all small simplices, and (when TLC
   runs with the Java overrides) the overrides against the definitions, which Plain instantiates under
   another module name so that they are not overridden. *)
EXTENDS ExactGeom, ExactGeomPlain, TLC

CONSTANTS Dim, Top
Pt == [1..Dim -> 0..Top]
VARIABLES s, q
Init == s \in [1..(Dim + 1) -> Pt] /\ q \in Pt
Next == UNCHANGED <<s, q>>

SameAsPlain == /\ Orient(s) = POrient(s)
               /\ InSphere(s, q) = PInSphere(s, q)
               /\ Fills(<<s, s>>, q, s[1]) = PFills(<<s, s>>, q, s[1])
               /\ (Orient(s) # 0 /\ \A k \in 1..Dim : q[k] <= s[1][k])
                    => BallMeetsBox(s, q, s[1]) = PBallMeetsBox(s, q, s[1])
               /\ s[2] # q => Share(7, s[1], q, s[2], q) = PShare(7, s[1], q, s[2], q)
               /\ Nearer(s[1], q, s[2], s[3]) = PNearer(s[1], q, s[2], s[3])
\* a vertex is on the sphere; the order of the vertices only matters for the orientation
Swapped == [s EXCEPT ![1] = s[2], ![2] = s[1]]
Vertices == \A i \in 1..(Dim + 1) : InSphere(s, s[i]) = 0
Symmetric == Orient(Swapped) = -Orient(s) /\ InSphere(Swapped, q) = InSphere(s, q)
\* a ball meets the box made of a single point iff the point is not outside of it
PointBox == Orient(s) # 0 => (BallMeetsBox(s, q, q) = (InSphere(s, q) >= 0))
\* the sphere's inside, by an independent route: the midpoint of two vertices is strictly inside
Mid == [k \in 1..Dim |-> s[1][k] + s[2][k]]
Twice == [i \in 1..(Dim + 1) |-> [k \in 1..Dim |-> 2 * s[i][k]]]
Inside == Orient(s) # 0 => InSphere(Twice, Mid) = 1
Inv == SameAsPlain /\ Vertices /\ Symmetric /\ PointBox /\ Inside
=============================================================================
