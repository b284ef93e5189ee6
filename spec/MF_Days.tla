------------------------------- MODULE MF_Days --------------------------------
(* Days, weeks, months and hours in New York around 2020-03-08, when an     *)
(* hour is skipped, and past the end of the month.                          *)
EXTENDS FrameModel
MCWorld == [zone |-> "America/New_York", tz |-> <<<<-30000, 0, -18000>>, <<18329, 25200, -14400>>, <<18567, 21600, -18000>>>>,
            open |-> <<34200, 0>>, close |-> <<57600, 0>>, days |-> <<0, 1, 2, 3, 4>>, hol |-> <<>>,
            fs |-> <<[unit |-> DAY, q |-> 1, max |-> 3, inds |-> <<<<CANDLE, 1, 2>>, <<SMA, 0, 2>>>>],
                     [unit |-> WEEK, q |-> 1, max |-> 2, inds |-> <<<<PIVOT, 0, 2>>, <<RSI, 0, 1>>>>],
                     [unit |-> MONTH, q |-> 1, max |-> 2, inds |-> <<<<HEIKIN, 0, 2>>>>],
                     [unit |-> HOUR, q |-> 12, max |-> 2, inds |-> <<<<BASE, 1, 2>>>>]>>]
\* Friday 2020-03-06 23:59:59 in New York
MCStart == <<18328, 17999, 0>>
MCTicks == {[dt |-> d, v |-> v] : d \in {0, 1, 43200, 176400, 518400}, v \in {-3, 200}}
MCAttach == {[at |-> 2, ind |-> <<OLHC, 1, 2>>]}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
