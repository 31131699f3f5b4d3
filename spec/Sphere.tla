------------------------------- MODULE Sphere -------------------------------
(* Great circle distances where they follow from the coordinates without        *)
(* trigonometry (C36): as an angle, in the unit of the coordinates, H being half *)
(* a circle. Positions are <<lon, lat>>. Sure(a, b) is the set of answers the     *)
(* rules give; the model (SphereModel) shows that they never contradict each      *)
(* other and make a metric.                                                     *)
EXTENDS Integers
CONSTANT H
Q == H \div 2
Ab(n) == IF n < 0 THEN -n ELSE n
(* difference in longitude, the short way round, without leaving -2H..2H *)
DLon(p, q) == IF (p >= 0) = (q >= 0) THEN Ab(p - q)
              ELSE IF Ab(p) <= H - Ab(q) THEN Ab(p) + Ab(q) ELSE (H - Ab(p)) + (H - Ab(q))
Same(a, b) == (DLon(a[1], b[1]) = 0 /\ a[2] = b[2]) \/ (Ab(a[2]) = Q /\ a[2] = b[2])
Sure(a, b) ==
    LET dl == DLon(a[1], b[1]) IN
      (IF dl = 0 THEN {Ab(a[2] - b[2])} ELSE {})                                 \* one meridian
    \cup (IF a[2] = 0 /\ b[2] = 0 THEN {dl} ELSE {})                             \* the equator
    \cup (IF Ab(a[2]) = Q \/ Ab(b[2]) = Q THEN {Ab(a[2] - b[2])} ELSE {})        \* from a pole
    \cup (IF dl = H THEN {H - Ab(a[2] + b[2])} ELSE {})                          \* opposite meridians: over a pole
    \cup (IF dl = Q /\ (a[2] = 0 \/ b[2] = 0) THEN {Q} ELSE {})                  \* a quarter away
=============================================================================
