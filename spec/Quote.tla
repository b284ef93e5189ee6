-------------------------------- MODULE Quote ---------------------------------
(***************************************************************************)
(* A tick as a quote.  Prices are integers: cents for quotes in whole      *)
(* cents (unit = 1), units of 0.0001 otherwise (unit = 100).               *)
(***************************************************************************)
EXTENDS Calendar

\* num: are bid and ask numbers; aware: is the datetime one with a timezone
Accepted(num, bid, ask, aware) == num /\ aware /\ bid <= ask

\* what spread and value may be reported, in cents
Spreads(bid, ask, unit) == RoundSet(ask - bid, unit)
ValueOK(v, bid, ask, unit) ==
    IF unit = 1 THEN v \in RoundSet(bid + ask, 2)
    ELSE 2 * Abs(unit * v - bid) <= (ask - bid) + 2 * unit
         /\ Abs(2 * unit * v - (bid + ask)) <= 2 * unit
=============================================================================
