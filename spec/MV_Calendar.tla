----------------------------- MODULE MV_Calendar ------------------------------
(***************************************************************************)
(* A clock that moves on in small and large steps in several timezones,    *)
(* from moments around clock changes, month, year and leap day ends, and   *)
(* the timeframe grid seen from it, compared with a declarative account of *)
(* grid points.                                                            *)
(***************************************************************************)
EXTENDS Calendar, TLC, Json

CONSTANTS Depth, Emit
VARIABLES z, u, n, hist
vars == <<z, u, n, hist>>
Seen == <<z, u, n>>

Zones == <<
  [zone |-> "UTC", tz |-> <<<<-4000000, 0, 0>>>>],
  [zone |-> "Europe/Paris", tz |-> <<<<-4000000, 0, 3600>>, <<18350, 3600, 7200>>, <<18560, 3600, 3600>>,
                                     <<18714, 3600, 7200>>>>],
  [zone |-> "Australia/Lord_Howe", tz |-> <<<<-4000000, 0, 39600>>, <<18356, 54000, 37800>>,
                                     <<18538, 55800, 39600>>, <<18720, 54000, 37800>>>>],
  [zone |-> "America/St_Johns", tz |-> <<<<-4000000, 0, -12600>>, <<18329, 19800, -9000>>,
                                     <<18567, 16200, -12600>>, <<18700, 19800, -9000>>>>],
  [zone |-> "Asia/Kathmandu", tz |-> <<<<-4000000, 0, 20700>>>>]>>

\* 2020-01-01, 2020-02-29, 2019-12-30 (a Monday), 2020-03-29, 2020-10-25, 2020-10-04, 2020-03-08, ...
Starts == {<<18262, 0, 0>>, <<18261, 86398, 999999>>, <<18321, 43200, 1>>, <<18320, 86399, 999999>>,
           <<18260, 0, 0>>, <<18350, 3599, 999999>>, <<18350, 3600, 0>>, <<18560, 3599, 0>>, <<18560, 0, 0>>,
           <<18538, 54000, 0>>, <<18356, 53999, 0>>, <<18329, 19799, 0>>, <<18567, 16200, 0>>,
           <<18443, 3661, 0>>, <<18444, 61261, 1>>, <<18628, 0, 0>>, <<18627, 86399, 0>>}
Steps == {1, 59, 1800, 3600, 86399, 86400, 2592000, 15897600}

Tz == Zones[z].tz
w == Local(Tz, u)

Init == /\ z \in 1..Len(Zones) /\ u \in Starts /\ n = 0 /\ hist = <<[zone |-> Zones[z].zone, at |-> u]>>
Next == /\ n < Depth
        /\ n' = n + 1
        /\ \E s \in Steps : u' = AddSec(u, s)
        /\ hist' = Append(hist, [zone |-> Zones[z].zone, at |-> u'])
        /\ UNCHANGED z
        /\ ((Emit = 1 \/ (Emit = 2 /\ n' = Depth)) => PrintT(<<"HIST", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The grid, declared                                                      *)
(***************************************************************************)
Quantities == {<<SECOND, q>> : q \in {1, 5, 20, 60}} \cup {<<MINUTE, q>> : q \in {1, 4, 30, 60}}
              \cup {<<HOUR, q>> : q \in {1, 4, 12}} \cup {<<DAY, 1>>, <<DAY, 7>>, <<WEEK, 1>>}
              \cup {<<MONTH, q>> : q \in {1, 3, 12}} \cup {<<YEAR, 1>>, <<YEAR, 2>>}
IsGrid(x, v) ==
    /\ v[3] = 0
    /\ CASE x[1] = SECOND -> (v[2] % 60) % x[2] = 0
         [] x[1] = MINUTE -> v[2] % 60 = 0 /\ ((v[2] \div 60) % 60) % x[2] = 0
         [] x[1] = HOUR   -> v[2] % 3600 = 0 /\ (v[2] \div 3600) % x[2] = 0
         [] x[1] = DAY    -> v[2] = 0 /\ (x[2] = 7 => Weekday(v[1]) = 0)
         [] x[1] = WEEK   -> v[2] = 0 /\ Weekday(v[1]) = 0
         [] x[1] = MONTH  -> v[2] = 0 /\ CivilFromDays(v[1])[3] = 1 /\ (CivilFromDays(v[1])[2] - 1) % x[2] = 0
         [] x[1] = YEAR   -> /\ v[2] = 0 /\ CivilFromDays(v[1])[3] = 1 /\ CivilFromDays(v[1])[2] = 1
                             /\ CivilFromDays(v[1])[1] % x[2] = 0
Width(x) == CASE x[1] = SECOND -> 1 [] x[1] = MINUTE -> 60 [] x[1] = HOUR -> 3600 [] OTHER -> DAYSEC
G(x) == GridStart(x[1], x[2], w)
H(x) == GridNext(x[1], x[2], G(x))
P20_Grid == \A x \in Quantities :
    /\ IsGrid(x, G(x)) /\ IsGrid(x, H(x))
    /\ Le(G(x), w) /\ Lt(w, H(x))
P20_Nearest == \A x \in Quantities :
    IF x[1] >= DAY THEN \A d \in (G(x)[1] + 1)..(H(x)[1] - 1) : ~IsGrid(x, <<d, 0, 0>>)
    ELSE \A k \in 1..(x[2] - 1) : ~IsGrid(x, AddSec(G(x), k * Width(x)))
P20_Stable == \A x \in Quantities : GridStart(x[1], x[2], G(x)) = G(x)

(***************************************************************************)
(* Clocks                                                                  *)
(***************************************************************************)
P20_Showing == /\ u \in Showing(Tz, w)
               /\ Le(FirstInstant(Tz, w), u)
               /\ Local(Tz, FirstInstant(Tz, w)) = w
P20_Resolved == \A x \in Quantities :
    /\ Exists(Tz, Resolve(Tz, G(x)))
    /\ Le(G(x), Resolve(Tz, G(x)))
    /\ Local(Tz, FirstInstant(Tz, G(x))) = Resolve(Tz, G(x))

\* the units nest: a coarser period starts at a period of the finer one
P20_Nest == \A x, y \in Quantities :
    (x[1] < y[1] /\ ~(x[1] = WEEK) /\ ~(x[1] = DAY /\ x[2] = 7)) => IsGrid(<<x[1], 1>>, G(y))

ASSUME PrintT(<<"WORLD", ToJson([zones |-> Len(Zones)])>>)
=============================================================================
