------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Instants, local clocks and the timeframe grid.                          *)
(*                                                                         *)
(* A clock reading is <<day, sec, us>>: days since 1970-01-01, second of    *)
(* the day, microsecond.  Instants are readings of the UTC clock; a local  *)
(* reading is the same kind of triple on a wall clock.  A timezone is a    *)
(* table: a sequence of <<day, sec, offset>> ordered by the UTC moment     *)
(* from which the offset (in seconds) applies; the first entry applies     *)
(* from the beginning of time.                                             *)
(***************************************************************************)
EXTENDS Common

DAYSEC == 86400
TICK == 0   SECOND == 1   MINUTE == 2   HOUR == 3
DAY == 4    WEEK == 5     MONTH == 6    YEAR == 7
Units == TICK..YEAR

Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Le(a, b) == ~Lt(b, a)

\* add s seconds (|s| < 2^31) to a reading
AddSec(t, s) == LET x == t[2] + (s % DAYSEC)
                    d == t[1] + (s \div DAYSEC)
                IN  <<d + (x \div DAYSEC), x % DAYSEC, t[3]>>

(***************************************************************************)
(* Civil dates (proleptic Gregorian)                                       *)
(***************************************************************************)
DaysFromCivil(y0, m, d) ==
    LET y == IF m <= 2 THEN y0 - 1 ELSE y0
        era == y \div 400
        yoe == y - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN  era * 146097 + doe - 719468

CivilFromDays(z0) ==
    LET z == z0 + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN  <<y, m, d>>

Weekday(day) == (day + 3) % 7          \* Monday = 0; 1970-01-01 was a Thursday

(***************************************************************************)
(* Local clocks                                                            *)
(***************************************************************************)
Offset(tz, inst) ==
    LET n == Len(tz)
        applies == {i \in 2..n : Le(<<tz[i][1], tz[i][2], 0>>, inst)}
    IN  IF applies = {} THEN tz[1][3] ELSE tz[MaxSet(applies)][3]

Local(tz, inst) == AddSec(inst, Offset(tz, inst))

\* the instants at which the wall clock shows w: none in a skipped hour, two in a repeated one
Showing(tz, w) == {u \in {AddSec(w, -tz[i][3]) : i \in 1..Len(tz)} :
                        AddSec(u, Offset(tz, u)) = w}
Exists(tz, w) == Showing(tz, w) # {}
Ambiguous(tz, w) == Cardinality(Showing(tz, w)) > 1

\* the offset in force before the gap that skips the wall reading w
GapBefore(tz, w) ==
    CHOOSE i \in 1..(Len(tz) - 1) :
        LET T == <<tz[i+1][1], tz[i+1][2], 0>>
        IN  /\ Le(T, AddSec(w, -tz[i][3]))
            /\ Lt(AddSec(w, -tz[i+1][3]), T)

\* a wall reading in a gap is moved forward by the length of the gap
Resolve(tz, w) == IF Exists(tz, w) THEN w
                  ELSE LET i == GapBefore(tz, w)
                       IN  AddSec(w, tz[i+1][3] - tz[i][3])

\* the instant at which the (resolved) wall reading w is first shown
FirstInstant(tz, w) ==
    LET r == Resolve(tz, w)
        S == Showing(tz, r)
    IN  CHOOSE u \in S : \A v \in S : Le(u, v)

(***************************************************************************)
(* The timeframe grid                                                      *)
(***************************************************************************)
ValidQuantity(unit, q) ==
    CASE unit = TICK   -> q >= 1
      [] unit = SECOND -> q >= 1 /\ 60 % q = 0
      [] unit = MINUTE -> q >= 1 /\ 60 % q = 0
      [] unit = HOUR   -> q >= 1 /\ 12 % q = 0
      [] unit = DAY    -> q >= 1 /\ 7 % q = 0
      [] unit = WEEK   -> q = 1
      [] unit = MONTH  -> q >= 1 /\ 12 % q = 0
      [] unit = YEAR   -> q >= 1

\* latest grid point at or before the wall reading w
GridStart(unit, q, w) ==
    CASE unit = TICK   -> w
      [] unit = SECOND -> <<w[1], w[2] - ((w[2] % 60) % q), 0>>
      [] unit = MINUTE -> LET minute == (w[2] \div 60) % 60
                          IN  <<w[1], (w[2] \div 3600) * 3600 + (minute - (minute % q)) * 60, 0>>
      [] unit = HOUR   -> LET hour == w[2] \div 3600
                          IN  <<w[1], (hour - (hour % q)) * 3600, 0>>
      [] unit = DAY    -> <<w[1] - (Weekday(w[1]) % q), 0, 0>>
      [] unit = WEEK   -> <<w[1] - Weekday(w[1]), 0, 0>>
      [] unit = MONTH  -> LET c == CivilFromDays(w[1])
                              m == ((c[2] - 1) \div q) * q + 1
                          IN  <<DaysFromCivil(c[1], m, 1), 0, 0>>
      [] unit = YEAR   -> LET c == CivilFromDays(w[1])
                          IN  <<DaysFromCivil(c[1] - (c[1] % q), 1, 1), 0, 0>>

\* the grid point after the grid point w
GridNext(unit, q, w) ==
    CASE unit = TICK   -> w
      [] unit = SECOND -> AddSec(w, q)
      [] unit = MINUTE -> AddSec(w, 60 * q)
      [] unit = HOUR   -> AddSec(w, 3600 * q)
      [] unit = DAY    -> <<w[1] + q, w[2], w[3]>>
      [] unit = WEEK   -> <<w[1] + 7 * q, w[2], w[3]>>
      [] unit = MONTH  -> LET c == CivilFromDays(w[1])
                              k == c[1] * 12 + (c[2] - 1) + q
                          IN  <<DaysFromCivil(k \div 12, (k % 12) + 1, 1), w[2], w[3]>>
      [] unit = YEAR   -> LET c == CivilFromDays(w[1])
                          IN  <<DaysFromCivil(c[1] + q, 1, 1), w[2], w[3]>>

(***************************************************************************)
(* Market hours: cfg = [open, close : <<sec, us>>, days : set or sequence  *)
(* of weekdays, hol : sequence of civil dates <<y, m, d>>]                 *)
(***************************************************************************)
MarketOpenAt(cfg, w) ==
    /\ ~Lt(<<0, w[2], w[3]>>, <<0, cfg.open[1], cfg.open[2]>>)
    /\ ~Lt(<<0, cfg.close[1], cfg.close[2]>>, <<0, w[2], w[3]>>)
    /\ \E i \in 1..Len(cfg.days) : cfg.days[i] = Weekday(w[1])
    /\ ~\E i \in 1..Len(cfg.hol) : DaysFromCivil(cfg.hol[i][1], cfg.hol[i][2], cfg.hol[i][3]) = w[1]
=============================================================================
