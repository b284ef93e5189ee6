------------------------------- MODULE MF_Ticks -------------------------------
(* Tick-count frames over several days, with every kind of indicator.       *)
EXTENDS FrameModel
MCWorld == [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, open |-> <<32400, 0>>, close |-> <<64800, 0>>,
            days |-> <<0, 1, 2, 3, 4, 5, 6>>, hol |-> <<>>,
            fs |-> <<[unit |-> TICK, q |-> 2, max |-> 3, inds |-> <<<<CANDLE, 0, 2>>, <<HEIKIN, 1, 2>>, <<SMA, 0, 2>>>>],
                     [unit |-> TICK, q |-> 1, max |-> 3, inds |-> <<<<RSI, 0, 2>>, <<SMA, 0, 3>>, <<PIVOT, 1, 2>>>>]>>]
MCStart == <<18262, 64799, 0>>
MCTicks == {[dt |-> d, v |-> v] : d \in {0, 1, 30000}, v \in {-3, 2}}
MCAttach == {[at |-> 1, ind |-> <<OLHC, 0, 2>>], [at |-> 2, ind |-> <<RSI, 0, 4>>]}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
