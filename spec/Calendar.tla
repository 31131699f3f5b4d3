------------------------------ MODULE Calendar ------------------------------
(* The calendar as a machine that goes from one day to the next, against the      *)
(* closed formulas (CalendarOps) the trace specification of C26 uses.            *)
EXTENDS Integers, CalendarOps
CONSTANTS FirstYear, LastYear, Fault
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == y = 1970 /\ m = 1 /\ d = 1 /\ n = 0
Len(yy, mm) == IF mm = 2 /\ "century" \in Fault THEN (IF yy % 4 = 0 THEN 29 ELSE 28)
               ELSE IF mm = 2 /\ "four" \in Fault THEN (IF yy % 4 = 0 /\ yy % 100 # 0 THEN 29 ELSE 28)
               ELSE MonthLength(yy, mm)
NextDay == /\ y <= LastYear /\ n >= 0 /\ n' = n + 1
           /\ IF d < Len(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
              ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
(* and from 1970 backwards *)
DayBefore == /\ n <= 0 /\ y >= FirstYear /\ n' = n - 1
             /\ IF d > 1 THEN d' = d - 1 /\ UNCHANGED <<y, m>>
                ELSE IF m > 1 THEN m' = m - 1 /\ y' = y /\ d' = Len(y, m - 1) ELSE m' = 12 /\ y' = y - 1 /\ d' = 31
Spec == Init /\ [][NextDay \/ DayBefore]_vars
There == Civil(n) = <<y, m, d>>
Back == Days(y, m, d) = n
=============================================================================
