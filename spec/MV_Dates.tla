------------------------------- MODULE MV_Dates -------------------------------
(***************************************************************************)
(* Day by day from 1968 to 2104: the closed formulas for civil dates and   *)
(* weekdays against the rule for the next day.                             *)
(***************************************************************************)
EXTENDS Calendar, TLC
CONSTANTS Last
VARIABLES day, date, wd
vars == <<day, date, wd>>

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                [] m \in {4, 6, 9, 11} -> 30
                [] OTHER -> 31
Tomorrow(c) == IF c[3] < Days(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
               ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>

\* one chain of days per century half, so that they are explored side by side
Firsts == {<<-732, <<1967, 12, 31>>, 6>>, <<0, <<1970, 1, 1>>, 3>>, <<10957, <<2000, 1, 1>>, 5>>,
           <<18262, <<2020, 1, 1>>, 2>>, <<47482, <<2100, 1, 1>>, 4>>}
Init == \E f \in Firsts : day = f[1] /\ date = f[2] /\ wd = f[3]
Next == /\ day < Last
        /\ day' = day + 1 /\ date' = Tomorrow(date) /\ wd' = (wd + 1) % 7
Spec == Init /\ [][Next]_vars
P20_Civil == CivilFromDays(day) = date /\ DaysFromCivil(date[1], date[2], date[3]) = day
P20_Weekday == Weekday(day) = wd
=============================================================================
