------------------------------ MODULE MF_Seconds ------------------------------
(* Short time frames: several per minute, gaps of several frames, market    *)
(* opening in between, indicators gated by market hours.                     *)
EXTENDS FrameModel
MCWorld == [zone |-> "Asia/Kathmandu", tz |-> <<<<-30000, 0, 20700>>>>, open |-> <<35999, 0>>, close |-> <<36020, 0>>,
            days |-> <<0, 1, 2, 3, 4, 5, 6>>, hol |-> <<>>,
            fs |-> <<[unit |-> SECOND, q |-> 2, max |-> 4, inds |-> <<<<CANDLE, 1, 2>>, <<SMA, 0, 3>>, <<RSI, 0, 1>>>>],
                     [unit |-> SECOND, q |-> 15, max |-> 2, inds |-> <<<<HEIKIN, 0, 2>>, <<PIVOT, 1, 2>>>>],
                     [unit |-> MINUTE, q |-> 1, max |-> 2, inds |-> <<<<SMA, 0, 2>>, <<BASE, 1, 2>>>>]>>]
MCStart == <<18262, 15290, 0>>
MCTicks == {[dt |-> d, v |-> v] : d \in {0, 1, 4, 15}, v \in {-3, 2}}
MCAttach == {[at |-> 1, ind |-> <<OLHC, 0, 2>>], [at |-> 3, ind |-> <<RSI, 0, 2>>]}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
