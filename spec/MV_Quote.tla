------------------------------- MODULE MV_Quote -------------------------------
(***************************************************************************)
(* Quotes offered one after the other, acceptable or not, in whole cents   *)
(* (unit 1) and in units of 0.0001 (unit 100), and what may be reported of *)
(* them.                                                                    *)
(***************************************************************************)
EXTENDS Quote, TLC, Json
CONSTANTS Depth, Emit
VARIABLES q, taken, n, hist
vars == <<q, taken, n, hist>>
Seen == <<q, taken, n>>

Quotes == [unit : {1}, bid : {-151, -2, -1, 0, 1, 3, 99, 100, 12345}, by : {-1, 0, 1, 2, 3, 100},
           num : {TRUE}, aware : {TRUE}]
          \cup [unit : {100}, bid : {-10049, -50, 0, 1, 49, 12345}, by : {-1, 0, 1, 49, 50, 51, 100, 150},
                num : {TRUE}, aware : {TRUE}]
          \cup [unit : {1}, bid : {0, 100}, by : {0, 3}, num : {TRUE, FALSE}, aware : {FALSE}]
          \cup [unit : {1}, bid : {0, 100}, by : {0, 3}, num : {FALSE}, aware : {TRUE}]
None == [unit |-> 0]

Init == q = None /\ taken = 0 /\ n = 0 /\ hist = <<>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \E x \in Quotes :
              /\ q' = x
              /\ taken' = IF Accepted(x.num, x.bid, x.bid + x.by, x.aware) THEN taken + 1 ELSE taken
              /\ hist' = Append(hist, x)
        /\ ((Emit = 1 \/ (Emit = 2 /\ n' = Depth)) => PrintT(<<"HIST", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars

bid == q.bid
ask == q.bid + q.by
Ok == q # None /\ q.by >= 0
P01_Accepted == [][(taken' = taken + 1) = (q'.by >= 0 /\ q'.num /\ q'.aware)]_vars
\* whole cents: the spread is exact, the value differs from the exact midpoint by at most half a cent
P01_Spread == (Ok /\ q.unit = 1) => Spreads(bid, ask, 1) \cap {q.by} # {} /\
                 \A s \in Spreads(bid, ask, 1) : s - q.by \in {0, -1} /\ (s # q.by => FALSE)
P01_Value == (Ok /\ q.unit = 1) =>
    \A v \in (bid - 2)..(ask + 2) :
        (ValueOK(v, bid, ask, 1) = (2 * v - (bid + ask) \in {-1, 0, 1}))
\* finer quotes: the spread to the nearest cent, the value within a cent of the midpoint
P01_Fine == (Ok /\ q.unit = 100) =>
    /\ \A s \in Spreads(bid, ask, 100) : 2 * Abs(100 * s - q.by) <= 100
    /\ \E v \in ((bid \div 100) - 2)..((ask \div 100) + 2) : ValueOK(v, bid, ask, 100)
    /\ \A v \in ((bid \div 100) - 3)..((ask \div 100) + 3) :
          ValueOK(v, bid, ask, 100) => Abs(2 * 100 * v - (bid + ask)) <= 200
ASSUME PrintT(<<"WORLD", ToJson([kind |-> "quotes"])>>)
=============================================================================
